// Stand-in for a Boost.Core header newer than the one installed here.
#ifndef BOOST_CORE_INVOKE_SWAP_HPP
#define BOOST_CORE_INVOKE_SWAP_HPP
#include <utility>
namespace boost { namespace core { namespace invoke_swap_detail { using std::swap; template <class T> void go(T& a, T& b) { swap(a, b); } }
template <class T> void invoke_swap(T& a, T& b) { invoke_swap_detail::go(a, b); } } }
#endif
