// Stand-in for the boost::optional support of MaidSafe's cereal fork.
#ifndef VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#define VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#include "boost/optional.hpp"
#include "cereal/cereal.hpp"
namespace cereal {
template <class Archive, class T>
void save(Archive& ar, const boost::optional<T>& o) {
  bool init = static_cast<bool>(o);
  ar(init);
  if (init) ar(*o);
}
template <class Archive, class T>
void load(Archive& ar, boost::optional<T>& o) {
  bool init = false;
  ar(init);
  if (init) { T t; ar(t); o = std::move(t); } else { o = boost::none; }
}
}  // namespace cereal
#endif
