// Forces the compiler to emit the inline functions and templates of the public headers that no library source uses.
#include "flame/base.h"
#include "flame/moment.h"
#include "flame/config.h"
bool (*fv_ne)(const Particle&, const Particle&) = &operator!=;
bool (StateBase::ArrayInfo::*fv_inb)(size_t*) const = &StateBase::ArrayInfo::inbounds;
void *(StateBase::ArrayInfo::*fv_raw)(size_t*) = &StateBase::ArrayInfo::raw;
typedef std::vector<double> fv_vd;
#define FV_CONF(T, R, P, N) \
R (Config::*fv_get_##N)(const std::string&) const = &Config::get<T >; \
R (Config::*fv_getd_##N)(const std::string&, boost::call_traits<T >::param_type) const = &Config::get<T >; \
bool (Config::*fv_try_##N)(const std::string&, T&) const = &Config::tryGet<T >; \
void (Config::*fv_set_##N)(const std::string&, boost::call_traits<T >::param_type) = &Config::set<T >;
FV_CONF(double, double, double, d)
FV_CONF(std::string, const std::string&, const std::string&, s)
FV_CONF(fv_vd, const fv_vd&, const fv_vd&, v)
FV_CONF(std::vector<Config>, const std::vector<Config>&, const std::vector<Config>&, c)
void (Config::*fv_swap_s)(const std::string&, std::string&) = &Config::swap<std::string>;
void (Config::*fv_swap_v)(const std::string&, fv_vd&) = &Config::swap<fv_vd>;
void (Config::*fv_swap_c)(const std::string&, std::vector<Config>&) = &Config::swap<std::vector<Config> >;
void (Config::*fv_swapc)(Config&) = &Config::swap;
ElementVoid* (Machine::*fv_find)(const std::string&, size_t) = &Machine::find;
std::pair<Machine::lookup_iterator, Machine::lookup_iterator> (Machine::*fv_eqr)(const std::string&) = &Machine::equal_range;
std::pair<Machine::lookup_iterator, Machine::lookup_iterator> (Machine::*fv_eqt)(const std::string&) = &Machine::equal_range_type;
std::pair<Machine::lookup_iterator, Machine::lookup_iterator> (Machine::*fv_all)() = &Machine::all_range;
