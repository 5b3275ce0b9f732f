#pragma once
#include <string>
#include <utility>
namespace proxyfmu
{
class remote_info
{
public:
    remote_info(std::string host, int port) : host_(std::move(host)), port_(port) {}
    const std::string& host() const { return host_; }
    int port() const { return port_; }
private:
    std::string host_;
    int port_;
};
} // namespace proxyfmu
