// Parsed (never compiled or run) together with the library: instantiates the templates of the C++ wrapper.
#include "tiropp/api.hpp"
#include <string>

namespace tiro_verif_witness {

struct Payload {
    std::string s;
};

inline tiro::handle sync_fn(tiro::vm& v, tiro::sync_frame&) {
    return tiro::make_null(v);
}
inline void async_fn(tiro::vm&, tiro::async_frame&) {}
inline void resumable_fn(tiro::vm&, tiro::resumable_frame&) {}

struct Callback {
    std::string s;
    void operator()(tiro::vm&, const tiro::coroutine&) {}
};

void use(tiro::vm& v, tiro::string& name, tiro::handle& h, tiro::function& f) {
    tiro::make_sync_function<&sync_fn>(v, name, 0, h);
    tiro::make_async_function<&async_fn>(v, name, 0, h);
    tiro::make_resumable_function<&resumable_fn>(v, name, 0, 0, h);
    tiro::native_type<Payload> nt("x");
    tiro::native n = nt.make(v, Payload{});
    nt.access(n);
    nt.destroy(n);
    nt.is_destroyed(n);
    tiro::run_async(v, f, Callback{});
    tiro::run_async(v, f, h, Callback{});
    h.is<tiro::string>();
    h.as<tiro::string>();
    h.as<tiro::native>();
    (void) static_cast<tiro::handle&&>(h).as<tiro::array>();
    tiro::detail::resource_holder<tiro_module_t, tiro_module_free> m1;
    tiro::detail::resource_holder<tiro_module_t, tiro_module_free> m2(static_cast<tiro::detail::resource_holder<tiro_module_t, tiro_module_free>&&>(m1));
    m1 = static_cast<tiro::detail::resource_holder<tiro_module_t, tiro_module_free>&&>(m2);
    m1.out();
}

} // namespace tiro_verif_witness
