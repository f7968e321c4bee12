// Stand-in for the HighFive library (not installed here): records every dataset as one line of text
//   <path>\t<values in full precision>
// so that the engine's raw-data output becomes a trace the specifications can read.
#pragma once
#include <string>
#include <vector>
#include <fstream>
#include <limits>
#include <memory>
#include <type_traits>
#include <Eigen/Dense>
namespace HighFive {
struct File {
  enum Mode { ReadOnly, ReadWrite, Truncate, Overwrite, Create };
  std::shared_ptr<std::ofstream> f;
  File(const std::string &name, int = 0) : f(std::make_shared<std::ofstream>(name)) {
    f->precision(std::numeric_limits<double>::max_digits10);
  }
};
} // namespace HighFive
namespace H5Easy {
using HighFive::File;
template <typename T> void put(std::ostream &o, const T &x) { o << x; }
template <typename T> void put(std::ostream &o, const std::vector<T> &v) {
  bool first = true;
  for (const auto &x : v) { if (!first) o << '\t'; first = false; put(o, x); }
}
template <typename T> void dump(File &file, const std::string &path, const T &x) {
  auto &o = *file.f;
  o << path << '\t';
  if constexpr (std::is_base_of_v<Eigen::EigenBase<T>, T>) {
    o << x.rows() << '\t' << x.cols();
    for (Eigen::Index i = 0; i < x.rows(); i++)
      for (Eigen::Index j = 0; j < x.cols(); j++) o << '\t' << x(i, j);
  } else put(o, x);
  o << '\n';
  o.flush();
}
} // namespace H5Easy
