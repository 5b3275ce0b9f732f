#pragma once
#include <memory>
#include <proxyfmu/fmi/model_description.hpp>
namespace proxyfmu::fmi
{
class slave
{
public:
    virtual const model_description& get_model_description() const = 0;
    virtual bool setup_experiment(double start = 0, double stop = 0, double tolerance = 0) = 0;
    virtual bool enter_initialization_mode() = 0;
    virtual bool exit_initialization_mode() = 0;
    virtual bool step(double currentTime, double stepSize) = 0;
    virtual bool reset() = 0;
    virtual bool terminate() = 0;
    virtual void freeInstance() = 0;
    virtual bool get_integer(const std::vector<value_ref>&, std::vector<int>&) = 0;
    virtual bool get_real(const std::vector<value_ref>&, std::vector<double>&) = 0;
    virtual bool get_string(const std::vector<value_ref>&, std::vector<std::string>&) = 0;
    virtual bool get_boolean(const std::vector<value_ref>&, std::vector<bool>&) = 0;
    virtual bool set_integer(const std::vector<value_ref>&, const std::vector<int>&) = 0;
    virtual bool set_real(const std::vector<value_ref>&, const std::vector<double>&) = 0;
    virtual bool set_string(const std::vector<value_ref>&, const std::vector<std::string>&) = 0;
    virtual bool set_boolean(const std::vector<value_ref>&, const std::vector<bool>&) = 0;
    virtual ~slave() = default;
};
} // namespace proxyfmu::fmi
