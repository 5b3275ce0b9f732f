// Stand-in for the FMI importer, which needs the FMI Library that this sandbox
// lacks.  It only forwards to a hook that a harness may set.
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>

#include <functional>
#include <stdexcept>

struct jm_callbacks { int dummy; };

namespace vh
{
std::function<std::shared_ptr<cosim::fmi::fmu>(const cosim::filesystem::path&)> fmuImportHook;
}

namespace cosim
{
namespace fmi
{
std::shared_ptr<importer> importer::create(std::shared_ptr<file_cache> cache)
{
    return std::shared_ptr<importer>(new importer(std::move(cache)));
}

importer::importer(std::shared_ptr<file_cache> cache)
    : fileCache_(std::move(cache))
    , handle_(nullptr, [](fmi_import_context_t*) {})
{
}

std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& p)
{
    if (vh::fmuImportHook) return vh::fmuImportHook(p);
    throw std::runtime_error("FMU import is not available: " + p.string());
}
} // namespace fmi
} // namespace cosim
