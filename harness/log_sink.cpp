// Logging for the harnesses: on in some cases, so that what the library does
// to make log messages is observed, too, and off in others, because it's slow.
// The messages go nowhere.
#include <boost/core/null_deleter.hpp>
#include <boost/log/core.hpp>
#include <boost/log/sinks/sync_frontend.hpp>
#include <boost/log/sinks/text_ostream_backend.hpp>
#include <boost/make_shared.hpp>
#include <ostream>

namespace
{
struct nowhere : std::streambuf
{
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    int overflow(int c) override { return c == EOF ? 0 : c; }
};
} // namespace

#ifdef __SANITIZE_THREAD__
#    define VH_TSAN
#elif defined(__has_feature)
#    if __has_feature(thread_sanitizer)
#        define VH_TSAN
#    endif
#endif

void vh_enable_log(bool on)
{
#ifdef VH_TSAN
    on = false; // C37 has it on
#endif
    namespace sinks = boost::log::sinks;
    static bool first = true;
    if (first) {
        first = false;
        const auto backend = boost::make_shared<sinks::text_ostream_backend>();
        backend->add_stream(boost::shared_ptr<std::ostream>(new std::ostream(new nowhere), boost::null_deleter()));
        boost::log::core::get()->add_sink(boost::make_shared<sinks::synchronous_sink<sinks::text_ostream_backend>>(backend));
    }
    boost::log::core::get()->set_logging_enabled(on);
}
