// A small model of pugixml for symbolic runs: the subset of XML the harnesses
// write (elements, attributes, text, comments and declarations, no entities),
// the read-only interface of its document tree and appending to it. Numbers
// written to attributes are kept as they are (the real library prints enough
// digits to read them back unchanged). Native replays use the real library.
#include <pugixml.hpp>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pugi {
struct xml_attribute_struct {
  std::string name, value;
  double number{0.0};
  bool is_number{false};
  xml_attribute_struct *prev{nullptr}, *next{nullptr};
};
struct xml_node_struct {
  explicit xml_node_struct(xml_node_type t) : type(t) {}
  xml_node_type type;
  std::string name, value;
  xml_node_struct *parent{nullptr}, *first{nullptr}, *last{nullptr}, *prev{nullptr}, *next{nullptr};
  xml_attribute_struct *first_attr{nullptr}, *last_attr{nullptr};
};

static xml_node_struct* add_child(xml_node_struct* p, xml_node_type t) {
  auto* n = new xml_node_struct(t);
  n->parent = p;
  n->prev = p->last;
  (p->last ? p->last->next : p->first) = n;
  p->last = n;
  return n;
}
static void destroy(xml_node_struct* n) {
  for (auto* c = n->first; c;) {
    auto* next = c->next;
    destroy(c);
    c = next;
  }
  for (auto* a = n->first_attr; a;) {
    auto* next = a->next;
    delete a;
    a = next;
  }
  delete n;
}
static bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }

namespace {
struct reader {
  char const *p, *e;
  bool starts(char const* s) const {
    auto const n = std::strlen(s);
    return static_cast<std::size_t>(e - p) >= n && std::memcmp(p, s, n) == 0;
  }
  bool skip_past(char const* s) {
    for (; p != e; ++p)
      if (starts(s)) {
        p += std::strlen(s);
        return true;
      }
    return false;
  }
  std::string word() {
    std::string r;
    while (p != e && !space(*p) && *p != '>' && *p != '/' && *p != '=') r.push_back(*p++);
    return r;
  }
  void spaces() {
    while (p != e && space(*p)) ++p;
  }
  xml_parse_status parse(xml_node_struct* at) {
    auto* const root = at;
    bool element = false;
    while (p != e) {
      if (*p != '<') {
        std::string text;
        bool blank = true;
        for (; p != e && *p != '<'; ++p) {
          if (*p == '&') std::abort();  // entities are not modelled
          blank = blank && space(*p);
          text.push_back(*p);
        }
        if (p == e && at != root) return status_end_element_mismatch;
        if (!blank && at != root) add_child(at, node_pcdata)->value = text;
        continue;
      }
      if (starts("<?")) {
        if (!skip_past("?>")) return status_bad_pi;
        continue;
      }
      if (starts("<!--")) {
        if (!skip_past("-->")) return status_bad_comment;
        continue;
      }
      if (starts("</")) {
        p += 2;
        auto const name = word();
        spaces();
        if (at == root || p == e || *p != '>' || name != at->name) return status_end_element_mismatch;
        ++p;
        at = at->parent;
        continue;
      }
      ++p;
      auto* const n = add_child(at, node_element);
      element = true;
      n->name = word();
      if (n->name.empty()) return status_unrecognized_tag;
      for (;;) {
        spaces();
        if (p == e) return status_bad_start_element;
        if (*p == '>') {
          ++p;
          at = n;
          break;
        }
        if (starts("/>")) {
          p += 2;
          break;
        }
        auto* const a = new xml_attribute_struct;
        a->name = word();
        a->prev = n->last_attr;
        (n->last_attr ? n->last_attr->next : n->first_attr) = a;
        n->last_attr = a;
        if (p == e || *p != '=') return status_bad_attribute;
        ++p;
        if (p == e || (*p != '"' && *p != '\'')) return status_bad_attribute;
        char const q = *p++;
        while (p != e && *p != q) {
          if (*p == '&') std::abort();
          a->value.push_back(*p++);
        }
        if (p == e) return status_bad_attribute;
        ++p;
      }
    }
    if (at != root) return status_end_element_mismatch;
    return element ? status_ok : status_no_document_element;
  }
};
}  // namespace

xml_parse_result::xml_parse_result() : status(status_internal_error), offset(0), encoding(encoding_auto) {}
xml_parse_result::operator bool() const { return status == status_ok; }
const char* xml_parse_result::description() const { return status == status_ok ? "No error" : "Error"; }

xml_document::xml_document() : _buffer(nullptr) { _root = new xml_node_struct(node_document); }
xml_document::~xml_document() { destroy(_root); }
xml_document::xml_document(xml_document&& o) noexcept : _buffer(nullptr) {
  _root = o._root;
  o._root = new xml_node_struct(node_document);
}
xml_document& xml_document::operator=(xml_document&& o) noexcept {
  if (this != &o) std::swap(_root, o._root);
  return *this;
}
void xml_document::reset() {
  destroy(_root);
  _root = new xml_node_struct(node_document);
}
xml_parse_result xml_document::load_buffer(const void* b, size_t n, unsigned int, xml_encoding) {
  reset();
  xml_parse_result r;
  auto const* p = static_cast<char const*>(b);
  r.status = reader{p, p + n}.parse(_root);
  r.encoding = encoding_utf8;
  return r;
}
xml_parse_result xml_document::load_string(const char_t* s, unsigned int o) { return load_buffer(s, std::strlen(s), o, encoding_utf8); }
xml_node xml_document::document_element() const {
  for (auto* c = _root->first; c; c = c->next)
    if (c->type == node_element) return xml_node(c);
  return {};
}

// attributes
static void unspecified_bool_attr(xml_attribute***) {}
xml_attribute::xml_attribute() : _attr(nullptr) {}
xml_attribute::xml_attribute(xml_attribute_struct* a) : _attr(a) {}
xml_attribute::operator xml_attribute::unspecified_bool_type() const { return _attr ? unspecified_bool_attr : nullptr; }
bool xml_attribute::operator!() const { return !_attr; }
bool xml_attribute::operator==(const xml_attribute& r) const { return _attr == r._attr; }
bool xml_attribute::operator!=(const xml_attribute& r) const { return _attr != r._attr; }
bool xml_attribute::empty() const { return !_attr; }
const char_t* xml_attribute::name() const { return _attr ? _attr->name.c_str() : ""; }
const char_t* xml_attribute::value() const { return _attr ? _attr->value.c_str() : ""; }
const char_t* xml_attribute::as_string(const char_t* d) const { return _attr ? _attr->value.c_str() : d; }
xml_attribute xml_attribute::next_attribute() const { return _attr ? xml_attribute(_attr->next) : xml_attribute(); }
xml_attribute xml_attribute::previous_attribute() const { return _attr ? xml_attribute(_attr->prev) : xml_attribute(); }

// nodes
static void unspecified_bool_node(xml_node***) {}
xml_node::xml_node() : _root(nullptr) {}
xml_node::xml_node(xml_node_struct* p) : _root(p) {}
xml_node::operator xml_node::unspecified_bool_type() const { return _root ? unspecified_bool_node : nullptr; }
bool xml_node::operator!() const { return !_root; }
bool xml_node::operator==(const xml_node& r) const { return _root == r._root; }
bool xml_node::operator!=(const xml_node& r) const { return _root != r._root; }
bool xml_node::operator<(const xml_node& r) const { return _root < r._root; }
bool xml_node::operator>(const xml_node& r) const { return _root > r._root; }
bool xml_node::operator<=(const xml_node& r) const { return _root <= r._root; }
bool xml_node::operator>=(const xml_node& r) const { return _root >= r._root; }
bool xml_node::empty() const { return !_root; }
xml_node_type xml_node::type() const { return _root ? _root->type : node_null; }
const char_t* xml_node::name() const { return _root ? _root->name.c_str() : ""; }
const char_t* xml_node::value() const { return _root ? _root->value.c_str() : ""; }
xml_attribute xml_node::first_attribute() const { return _root ? xml_attribute(_root->first_attr) : xml_attribute(); }
xml_attribute xml_node::last_attribute() const { return _root ? xml_attribute(_root->last_attr) : xml_attribute(); }
xml_node xml_node::first_child() const { return _root ? xml_node(_root->first) : xml_node(); }
xml_node xml_node::last_child() const { return _root ? xml_node(_root->last) : xml_node(); }
xml_node xml_node::next_sibling() const { return _root ? xml_node(_root->next) : xml_node(); }
xml_node xml_node::previous_sibling() const { return _root ? xml_node(_root->prev) : xml_node(); }
xml_node xml_node::parent() const { return _root ? xml_node(_root->parent) : xml_node(); }
xml_node xml_node::child(const char_t* name) const {
  if (_root)
    for (auto* c = _root->first; c; c = c->next)
      if (c->name == name && c->type == node_element) return xml_node(c);
  return {};
}
xml_attribute xml_node::attribute(const char_t* name) const {
  if (_root)
    for (auto* a = _root->first_attr; a; a = a->next)
      if (a->name == name) return xml_attribute(a);
  return {};
}
xml_node xml_node::next_sibling(const char_t* name) const {
  if (_root)
    for (auto* c = _root->next; c; c = c->next)
      if (c->name == name && c->type == node_element) return xml_node(c);
  return {};
}
xml_node xml_node::previous_sibling(const char_t* name) const {
  if (_root)
    for (auto* c = _root->prev; c; c = c->prev)
      if (c->name == name && c->type == node_element) return xml_node(c);
  return {};
}
const char_t* xml_node::child_value() const {
  if (_root)
    for (auto* c = _root->first; c; c = c->next)
      if (c->type == node_pcdata) return c->value.c_str();
  return "";
}
const char_t* xml_node::child_value(const char_t* name) const { return child(name).child_value(); }
size_t xml_node::hash_value() const { return reinterpret_cast<size_t>(_root) / sizeof(xml_node_struct); }
xml_node_struct* xml_node::internal_object() const { return _root; }
xml_node::iterator xml_node::begin() const { return _root ? iterator(_root->first, _root) : iterator(); }
xml_node::iterator xml_node::end() const { return _root ? iterator(nullptr, _root) : iterator(); }
xml_object_range<xml_node_iterator> xml_node::children() const { return {begin(), end()}; }
xml_object_range<xml_named_node_iterator> xml_node::children(const char_t* name) const {
  return {xml_named_node_iterator(child(name)._root, _root, name), xml_named_node_iterator(nullptr, _root, name)};
}
xml_node::attribute_iterator xml_node::attributes_begin() const { return _root ? attribute_iterator(_root->first_attr, _root) : attribute_iterator(); }
xml_node::attribute_iterator xml_node::attributes_end() const { return _root ? attribute_iterator(nullptr, _root) : attribute_iterator(); }
xml_object_range<xml_attribute_iterator> xml_node::attributes() const { return {attributes_begin(), attributes_end()}; }

// iterators
xml_node_iterator::xml_node_iterator() {}
xml_node_iterator::xml_node_iterator(const xml_node& n) : _wrap(n), _parent(n.parent()) {}
xml_node_iterator::xml_node_iterator(xml_node_struct* r, xml_node_struct* p) : _wrap(r), _parent(p) {}
bool xml_node_iterator::operator==(const xml_node_iterator& r) const { return _wrap._root == r._wrap._root && _parent._root == r._parent._root; }
bool xml_node_iterator::operator!=(const xml_node_iterator& r) const { return !(*this == r); }
xml_node& xml_node_iterator::operator*() const { return _wrap; }
xml_node* xml_node_iterator::operator->() const { return &_wrap; }
xml_node_iterator& xml_node_iterator::operator++() {
  _wrap._root = _wrap._root->next;
  return *this;
}
xml_node_iterator xml_node_iterator::operator++(int) {
  auto c = *this;
  ++*this;
  return c;
}
xml_node_iterator& xml_node_iterator::operator--() {
  _wrap = _wrap._root ? _wrap.previous_sibling() : _parent.last_child();
  return *this;
}
xml_node_iterator xml_node_iterator::operator--(int) {
  auto c = *this;
  --*this;
  return c;
}
xml_named_node_iterator::xml_named_node_iterator() : _name(nullptr) {}
xml_named_node_iterator::xml_named_node_iterator(const xml_node& n, const char_t* name) : _wrap(n), _parent(n.parent()), _name(name) {}
xml_named_node_iterator::xml_named_node_iterator(xml_node_struct* r, xml_node_struct* p, const char_t* name) : _wrap(r), _parent(p), _name(name) {}
bool xml_named_node_iterator::operator==(const xml_named_node_iterator& r) const { return _wrap._root == r._wrap._root && _parent._root == r._parent._root; }
bool xml_named_node_iterator::operator!=(const xml_named_node_iterator& r) const { return !(*this == r); }
xml_node& xml_named_node_iterator::operator*() const { return _wrap; }
xml_node* xml_named_node_iterator::operator->() const { return &_wrap; }
xml_named_node_iterator& xml_named_node_iterator::operator++() {
  _wrap = _wrap.next_sibling(_name);
  return *this;
}
xml_named_node_iterator xml_named_node_iterator::operator++(int) {
  auto c = *this;
  ++*this;
  return c;
}
xml_attribute_iterator::xml_attribute_iterator() {}
xml_attribute_iterator::xml_attribute_iterator(xml_attribute_struct* r, xml_node_struct* p) : _wrap(r), _parent(p) {}
bool xml_attribute_iterator::operator==(const xml_attribute_iterator& r) const { return _wrap == r._wrap && _parent._root == r._parent._root; }
bool xml_attribute_iterator::operator!=(const xml_attribute_iterator& r) const { return !(*this == r); }
xml_attribute& xml_attribute_iterator::operator*() const { return _wrap; }
xml_attribute* xml_attribute_iterator::operator->() const { return &_wrap; }
xml_attribute_iterator& xml_attribute_iterator::operator++() {
  _wrap = _wrap.next_attribute();
  return *this;
}
// appending
static bool set_text(xml_attribute_struct* a, std::string v) {
  if (!a) return false;
  a->value = std::move(v);
  a->is_number = false;
  return true;
}
bool xml_attribute::set_value(const char_t* v) { return set_text(_attr, v); }
bool xml_attribute::set_value(int v) { return set_text(_attr, std::to_string(v)); }
bool xml_attribute::set_value(unsigned int v) { return set_text(_attr, std::to_string(v)); }
bool xml_attribute::set_value(long v) { return set_text(_attr, std::to_string(v)); }
bool xml_attribute::set_value(unsigned long v) { return set_text(_attr, std::to_string(v)); }
bool xml_attribute::set_value(long long v) { return set_text(_attr, std::to_string(v)); }
bool xml_attribute::set_value(unsigned long long v) { return set_text(_attr, std::to_string(v)); }
bool xml_attribute::set_value(bool v) { return set_text(_attr, v ? "true" : "false"); }
bool xml_attribute::set_value(double v) {
  if (!_attr) return false;
  _attr->number = v;
  _attr->is_number = true;
  return true;
}
double xml_attribute::as_double(double d) const {
  if (!_attr) return d;
  if (!_attr->is_number) std::abort();  // reading decimals is not modelled
  return _attr->number;
}
unsigned long long xml_attribute::as_ullong(unsigned long long d) const {
  if (!_attr) return d;
  if (_attr->is_number) std::abort();
  unsigned long long r = 0;
  for (auto const c : _attr->value) {
    if (c < '0' || c > '9') break;
    r = r * 10 + static_cast<unsigned long long>(c - '0');
  }
  return r;
}
xml_attribute xml_node::append_attribute(const char_t* name) {
  if (!_root) return {};
  auto* a = new xml_attribute_struct;
  a->name = name;
  a->prev = _root->last_attr;
  (_root->last_attr ? _root->last_attr->next : _root->first_attr) = a;
  _root->last_attr = a;
  return xml_attribute(a);
}
xml_node xml_node::append_child(xml_node_type t) { return _root ? xml_node(add_child(_root, t)) : xml_node(); }
xml_node xml_node::append_child(const char_t* name) {
  if (!_root) return {};
  auto* n = add_child(_root, node_element);
  n->name = name;
  return xml_node(n);
}
xml_node xml_node::append_copy(const xml_node& o) {
  if (!_root || !o._root) return {};
  auto r = xml_node(add_child(_root, o._root->type));
  r._root->name = o._root->name;
  r._root->value = o._root->value;
  for (auto* a = o._root->first_attr; a; a = a->next) {
    auto c = r.append_attribute(a->name.c_str());
    c._attr->value = a->value;
    c._attr->number = a->number;
    c._attr->is_number = a->is_number;
  }
  for (auto* k = o._root->first; k; k = k->next) r.append_copy(xml_node(k));
  return r;
}
}  // namespace pugi
