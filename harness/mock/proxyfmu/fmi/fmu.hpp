#pragma once
#include <memory>
#include <proxyfmu/fmi/slave.hpp>
namespace proxyfmu::fmi
{
class fmu
{
public:
    virtual const model_description& get_model_description() const = 0;
    virtual std::unique_ptr<slave> new_instance(const std::string& instanceName) = 0;
    virtual ~fmu() = default;
};
} // namespace proxyfmu::fmi
