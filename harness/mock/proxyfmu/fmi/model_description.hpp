#pragma once
#include <optional>
#include <string>
#include <variant>
#include <vector>
namespace proxyfmu::fmi
{
using value_ref = unsigned int;
struct integer { std::optional<int> start; };
struct real { std::optional<double> start; };
struct string { std::optional<std::string> start; };
struct boolean { std::optional<bool> start; };
struct enumeration { std::optional<int> start; };
using type_attribute = std::variant<integer, real, string, boolean, enumeration>;
struct scalar_variable
{
    value_ref vr;
    std::string name, description, causality, variability;
    type_attribute typeAttribute;
    bool is_integer() const { return typeAttribute.index() == 0; }
    bool is_real() const { return typeAttribute.index() == 1; }
    bool is_string() const { return typeAttribute.index() == 2; }
    bool is_boolean() const { return typeAttribute.index() == 3; }
};
struct model_description
{
    std::string guid, fmiVersion, modelName, modelIdentifier, description, author, version;
    std::vector<scalar_variable> modelVariables;
};
} // namespace proxyfmu::fmi
