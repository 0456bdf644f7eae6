// Symbolic build only: the part of boost::property_tree::ptree that parsers of JSON documents use.
#pragma once
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/next_prior.hpp>
#include <boost/optional.hpp>
namespace boost { namespace property_tree {
struct ptree_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct ptree_bad_path : ptree_error { using ptree_error::ptree_error; }; struct ptree_bad_data : ptree_error { using ptree_error::ptree_error; };
class ptree { public:
  struct value_type; typedef std::vector<value_type> Children; typedef std::size_t size_type;
  typedef value_type *iterator; typedef const value_type *const_iterator; typedef const_iterator const_assoc_iterator; typedef iterator assoc_iterator; typedef std::string key_type; typedef std::string data_type; typedef std::string path_type;
  std::string text; Children *kids = nullptr; // never freed: paths are short
  ptree() {} explicit ptree(std::string s) : text(std::move(s)) {} ptree(const ptree &o); ptree &operator=(const ptree &o);
  const std::string &data() const { return text; } std::string &data() { return text; }
  template <class T> T get_value() const; template <class T> T get(const std::string &k) const { return get_child(k).template get_value<T>(); }
  template <class T> T get(const std::string &k, const T &d) const { const_iterator i = find(k); return i == end() ? d : get_child(k).template get_value<T>(); }
  const_iterator find(const std::string &k) const; const_iterator not_found() const { return end(); }
  const_iterator begin() const; const_iterator end() const; iterator begin(); iterator end(); std::size_t size() const; bool empty() const { return size() == 0; }
  boost::optional<const ptree &> get_child_optional(const std::string &k) const { const_iterator i = find(k); if (i == end()) return boost::none; return boost::optional<const ptree &>(get_child(k)); }
  template <class T> boost::optional<T> get_optional(const std::string &k) const { const_iterator i = find(k); if (i == end()) return boost::none; return get_child(k).template get_value<T>(); }
  const ptree &get_child(const std::string &k, const ptree &d) const { const_iterator i = find(k); return i == end() ? d : get_child(k); }
  ptree &get_child(const std::string &k) { return const_cast<ptree &>(static_cast<const ptree *>(this)->get_child(k)); }
  const value_type &front() const; const value_type &back() const; const_iterator ordered_begin() const { return begin(); } const_iterator to_iterator(const_iterator i) const { return i; }
  const ptree &front_child() const; const ptree &get_child(const std::string &k) const; std::size_t count(const std::string &k) const; ptree &add(const std::string &k, const ptree &v);
};
struct ptree::value_type { std::string first; ptree second; };
inline ptree::ptree(const ptree &o) : text(o.text) { if (o.kids) kids = new Children(*o.kids); }
inline ptree &ptree::operator=(const ptree &o) { text = o.text; kids = o.kids ? new Children(*o.kids) : nullptr; return *this; }
inline ptree::const_iterator ptree::begin() const { return kids ? kids->data() : nullptr; } inline ptree::const_iterator ptree::end() const { return kids ? kids->data() + kids->size() : nullptr; }
inline ptree::iterator ptree::begin() { return kids ? kids->data() : nullptr; } inline ptree::iterator ptree::end() { return kids ? kids->data() + kids->size() : nullptr; }
inline std::size_t ptree::size() const { return kids ? kids->size() : 0; }
inline const ptree &ptree::get_child(const std::string &k) const { for (auto &c : *this) if (c.first == k) return c.second; throw ptree_bad_path("No such node: " + k); }
inline ptree::const_iterator ptree::find(const std::string &k) const { const_iterator i = begin(); while (i != end() && i->first != k) ++i; return i; }
inline std::size_t ptree::count(const std::string &k) const { std::size_t n = 0; for (auto &c : *this) n += c.first == k; return n; }
inline ptree &ptree::add(const std::string &k, const ptree &v) { if (!kids) kids = new Children; kids->push_back(value_type{k, v}); return kids->back().second; }
template <> inline std::string ptree::get_value<std::string>() const { return text; }
template <> inline int ptree::get_value<int>() const { return std::stoi(text); }
inline const ptree::value_type &ptree::front() const { return *begin(); } inline const ptree::value_type &ptree::back() const { return *(end() - 1); }
extern ptree *sv_document; // what read_json delivers
} }
