#pragma once
#include <vector>
namespace cista {
template <typename D, typename I> struct fws_multimap { std::vector<D> data_; std::vector<I> index_; };
namespace raw { using cista::fws_multimap; }
namespace offset { using cista::fws_multimap; }
}
