// C16-C19: JSON values.
#include <cmath>
#include <cstring>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "rst/value/value.h"
#include "seq/seq.h"

using rst::Value;
using seq::choose;
using seq::flip;
using seq::note;
using Type = rst::Value::Type;

namespace {

// The reference: plain copyable trees.
struct J {
  enum T { kNull, kBool, kNum, kStr, kArr, kObj, kAny } t = kNull;  // kAny: moved from.
  bool b = false;
  double n = 0;
  std::string s;
  std::vector<J> a;
  std::map<std::string, J> o;
};
J null() { return J(); }
J boolean(bool b) {
  J j;
  j.t = J::kBool;
  j.b = b;
  return j;
}
J num(double n) {
  J j;
  j.t = J::kNum;
  j.n = n;
  return j;
}
J str(std::string s) {
  J j;
  j.t = J::kStr;
  j.s = std::move(s);
  return j;
}
J arr(std::vector<J> a = {}) {
  J j;
  j.t = J::kArr;
  j.a = std::move(a);
  return j;
}
J obj(std::map<std::string, J> o = {}) {
  J j;
  j.t = J::kObj;
  j.o = std::move(o);
  return j;
}
bool operator==(const J& x, const J& y) {
  return x.t == y.t && x.b == y.b && x.n == y.n && x.s == y.s && x.a == y.a && x.o == y.o;
}

const Type kTypes[] = {Type::kNull, Type::kBool, Type::kNumber, Type::kString, Type::kArray, Type::kObject};

Value Make(const J& j) {
  switch (j.t) {
    case J::kBool:
      return Value(j.b);
    case J::kNum:
      return Value(j.n);
    case J::kStr:
      return Value(std::string(j.s));
    case J::kArr: {
      Value::Array a;
      for (auto& e : j.a) a.push_back(Make(e));
      return Value(std::move(a));
    }
    case J::kObj: {
      Value::Object o;
      for (auto& [k, e] : j.o) o.emplace(k, Make(e));
      return Value(std::move(o));
    }
    default:
      return Value();
  }
}

bool Same(const Value& v, const J& j) {
  if (j.t == J::kAny) return true;
  if (v.type() != kTypes[j.t]) return false;
  if (v.IsNull() != (j.t == J::kNull) || v.IsBool() != (j.t == J::kBool) || v.IsNumber() != (j.t == J::kNum) ||
      v.IsString() != (j.t == J::kStr) || v.IsArray() != (j.t == J::kArr) || v.IsObject() != (j.t == J::kObj))
    return false;
  switch (j.t) {
    case J::kBool:
      return v.GetBool() == j.b;
    case J::kNum: {
      const double d = v.GetDouble();
      return memcmp(&d, &j.n, sizeof(d)) == 0;
    }
    case J::kStr:
      return v.GetString() == j.s;
    case J::kArr: {
      const auto& a = v.GetArray();
      if (a.size() != j.a.size()) return false;
      for (size_t i = 0; i < a.size(); i++)
        if (!Same(a[i], j.a[i])) return false;
      return true;
    }
    case J::kObj: {
      const auto& o = v.GetObject();
      if (o.size() != j.o.size()) return false;
      auto i = j.o.begin();
      for (auto& [k, e] : o) {
        if (k != i->first || !Same(e, i->second)) return false;
        ++i;
      }
      return true;
    }
    default:
      return true;
  }
}

std::string Text(const J& j) {
  switch (j.t) {
    case J::kNull:
      return "null";
    case J::kBool:
      return j.b ? "true" : "false";
    case J::kNum: {
      char b[40];
      snprintf(b, sizeof(b), "%.17g", j.n);
      return b;
    }
    case J::kStr:
      return "'" + (j.s.size() > 20 ? std::to_string(j.s.size()) + " chars" : j.s) + "'";
    case J::kArr: {
      std::string r = "[";
      for (auto& e : j.a) r += (r.size() > 1 ? "," : "") + Text(e);
      return r + "]";
    }
    case J::kObj: {
      std::string r = "{";
      for (auto& [k, e] : j.o) r += (r.size() > 1 ? "," : "") + k + ":" + Text(e);
      return r + "}";
    }
    default:
      return "?";
  }
}
std::string Text(const Value& v) {
  switch (v.type()) {
    case Type::kNull:
      return "null";
    case Type::kBool:
      return v.GetBool() ? "true" : "false";
    case Type::kNumber:
      return Text(num(v.GetDouble()));
    case Type::kString:
      return Text(str(v.GetString()));
    case Type::kArray: {
      std::string r = "[";
      for (auto& e : v.GetArray()) r += (r.size() > 1 ? "," : "") + Text(e);
      return r + "]";
    }
    case Type::kObject: {
      std::string r = "{";
      for (auto& [k, e] : v.GetObject()) r += (r.size() > 1 ? "," : "") + k + ":" + Text(e);
      return r + "}";
    }
  }
  return "bad type";
}
#define SAME(v, j, what)                                                                                        \
  SEQ_CHECK(Same(v, j), "%s: the value is %s, not %s", what, Text(v).c_str(), Text(j).c_str())

// Longer than any small-string buffer.
const std::string kLong(40, 'L');

J Leaf(int i) {
  switch (i) {
    case 0:
      return str(kLong);
    case 1:
      return num(1.5);
    case 2:
      return obj();
    case 3:
      return boolean(true);
    case 4:
      return arr();
    case 5:
      return null();
    case 6:
      return str(std::string("a\0b", 3));
    default:
      return boolean(false);
  }
}
constexpr int kLeaves = 8;

// Any tree of the given depth and at most two children per node.
J Tree(int depth, int leaves) {
  const int c = choose(depth > 0 ? leaves + 4 : leaves);
  if (c < leaves) return Leaf(c);
  std::vector<J> k;
  for (int i = 0; i < ((c - leaves) & 1) + 1; i++) k.push_back(Tree(depth - 1, leaves));
  if (c - leaves < 2) return arr(k);
  J o = obj();
  o.o["k"] = k[0];
  if (k.size() > 1) o.o[""] = k[1];
  return o;
}

// Every node of a tree.
struct Node {
  Value* v;
  J* j;
  std::vector<int> path;  // Child numbers.
};
void Nodes(Value* v, J* j, std::vector<Node>* out, std::vector<int> path = {}) {
  if (j->t == J::kAny) {
    out->push_back({v, j, path});
    return;
  }
  out->push_back({v, j, path});
  path.push_back(0);
  if (j->t == J::kArr) {
    for (size_t i = 0; i < j->a.size(); i++) {
      path.back() = static_cast<int>(i);
      Nodes(&v->GetArray()[i], &j->a[i], out, path);
    }
  } else if (j->t == J::kObj) {
    int i = 0;
    auto it = v->GetObject().begin();
    for (auto& [k, e] : j->o) {
      path.back() = i++;
      Nodes(&it->second, &e, out, path);
      ++it;
    }
  }
}
bool Within(const std::vector<int>& outer, const std::vector<int>& inner) {
  return outer.size() <= inner.size() && std::equal(outer.begin(), outer.end(), inner.begin());
}

// Changes one node of (v, j).
void Mutate(Value* v, J* j, int kind) {
  switch (kind) {
    case 0:
      *v = Value(77);
      *j = num(77);
      break;
    case 1:
      *v = Value(std::string("changed to something long enough"));
      *j = str("changed to something long enough");
      break;
    case 2:
      if (j->t == J::kStr) {
        v->GetString() += "x";
        if (!v->GetString().empty()) v->GetString()[0] = 'Z';
        j->s += "x";
        j->s[0] = 'Z';
      } else if (j->t == J::kArr) {
        v->GetArray().push_back(Value(true));
        j->a.push_back(boolean(true));
      } else if (j->t == J::kObj) {
        v->SetKey("new", Value("n"));
        j->o["new"] = str("n");
      } else {
        *v = Value(Value::Array());
        *j = arr();
      }
      break;
    default:
      if (j->t == J::kStr) {
        v->GetString().clear();
        j->s.clear();
      } else if (j->t == J::kArr) {
        if (!j->a.empty()) {
          v->GetArray().pop_back();
          j->a.pop_back();
        }
      } else if (j->t == J::kObj) {
        if (!j->o.empty()) {
          const std::string k = j->o.begin()->first;
          SEQ_CHECK(v->RemoveKey(seq::Cut(k)), "RemoveKey() did not find a key");
          j->o.erase(k);
        }
      } else {
        *v = Value();
        *j = null();
      }
      break;
  }
}

void clones() {
  const J j = Tree(2, seq::bound() + 2);
  note("%s", Text(j).c_str());
  J ja = j, jb = j;
  auto a = std::make_unique<Value>(Make(j));
  SAME(*a, j, "built");
  std::unique_ptr<Value> b;
  const int how = choose(j.t == J::kArr || j.t == J::kObj ? 2 : 1);
  seq::step();
  if (how == 0) b = std::make_unique<Value>(std::as_const(*a).Clone());
  else if (j.t == J::kArr) b = std::make_unique<Value>(Value::Clone(std::as_const(*a).GetArray()));
  else b = std::make_unique<Value>(Value::Clone(std::as_const(*a).GetObject()));
  SAME(*a, j, "the original after cloning");
  SAME(*b, j, "the clone");
  SEQ_CHECK(*a == *b && !(*a != *b), "a clone compares unequal");
  seq::state(seq::hash(Text(j)));
  // Change either at any node.
  std::vector<Node> nodes;
  const bool which = flip();
  Nodes(which ? a.get() : b.get(), which ? &ja : &jb, &nodes);
  Node& n = nodes[static_cast<size_t>(choose(static_cast<int>(nodes.size())))];
  const int kind = choose(4);
  note("change the %s, kind %d", which ? "original" : "clone", kind);
  Mutate(n.v, n.j, kind);
  seq::step();
  SAME(*a, ja, "the original after a change");
  SAME(*b, jb, "the clone after a change");
  // One outlives the other.
  if (flip()) {
    a.reset();
    SAME(*b, jb, "the clone after the original died");
  } else {
    b.reset();
    SAME(*a, ja, "the original after the clone died");
  }
  seq::observe(Text(ja) + Text(jb));
}

// Many contents, in containers of many shapes: cloned, moved and assigned.
void contents() {
  static const std::vector<J>* all = [] {
    auto* v = new std::vector<J>;
    for (int c = 0; c < 256; c++) v->push_back(str(std::string(1, static_cast<char>(c))));
    for (size_t n : {0, 2, 7, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 64, 255, 256, 4096, 70000}) {
      v->push_back(str(std::string(n, 'x')));
      v->push_back(str(std::string(n, '\0')));
      std::string t;
      for (size_t i = 0; i < n; i++) t += static_cast<char>(i * 7 + 1);
      if (n > 3) t[n / 2] = '\0';
      v->push_back(str(t));
    }
    for (double d : {0.0, -0.0, 1.0, -1.0, 0.1, 1e-320, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                     -1.7976931348623157e308, 9007199254740991.0, -9007199254740991.0, 9007199254740992.0, 1e18, 1e300,
                     2147483647.0, -2147483648.0, 4294967296.5, 1e-300, 0.30000000000000004})
      v->push_back(num(d));
    v->push_back(null());
    v->push_back(boolean(false));
    v->push_back(boolean(true));
    v->push_back(arr());
    v->push_back(obj());
    return v;
  }();
  const J leaf = (*all)[static_cast<size_t>(choose(static_cast<int>(all->size())))];
  J j = leaf;
  static constexpr int kCounts[] = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 33, 100};
  const int shape = choose(4);
  if (shape == 1 || shape == 2) {
    const int n = kCounts[choose(static_cast<int>(std::size(kCounts)))];
    j = shape == 1 ? arr() : obj();
    for (int i = 0; i < n; i++) {
      // The content stands at every other place, and as a key too.
      const J e = i % 2 == 0 ? leaf : num(i);
      if (shape == 1) j.a.push_back(e);
      else if (leaf.t == J::kStr) j.o[leaf.s + std::string(i > 0, static_cast<char>(i))] = e;
      else j.o[std::to_string(i)] = e;
    }
  } else if (shape == 3) {
    static constexpr int kDepths[] = {1, 2, 3, 10, 100};
    const int n = kDepths[choose(5)];
    for (int i = 0; i < n; i++) {
      if (i % 2 == 0) {
        std::vector<J> up;
        up.push_back(std::move(j));
        up.push_back(num(i));
        j = arr(std::move(up));
      } else {
        std::map<std::string, J> up;
        up["k"] = std::move(j);
        j = obj(std::move(up));
      }
    }
  }
  const int op = choose(5);
  note("contents of shape %d, %.80s, operation %d", shape, Text(leaf).c_str(), op);
  Value v = Make(j);
  SAME(v, j, "built");
  seq::step();
  switch (op) {
    case 0: {
      const Value c = v.Clone();
      SAME(c, j, "the clone");
      SAME(v, j, "the original after cloning");
      SEQ_CHECK(c == v && !(c != v), "a clone compares unequal");
      break;
    }
    case 1: {
      Value m(std::move(v));
      SAME(m, j, "the value moved to");
      break;
    }
    case 2: {
      Value m(std::string("other"));
      m = std::move(v);
      SAME(m, j, "the value assigned");
      break;
    }
    case 3: {
      Value m = Make(obj({{"x", leaf}}));
      m = std::move(v);
      SAME(m, j, "the value assigned");
      break;
    }
    default: {
      Value m = Make(arr({leaf, leaf, leaf}));
      std::swap(m, v);
      SAME(m, j, "the value swapped in");
      SAME(v, arr({leaf, leaf, leaf}), "the value swapped out");
      m = v.Clone();
      SAME(m, arr({leaf, leaf, leaf}), "the clone assigned");
      break;
    }
  }
  const std::string t = Text(j);
  seq::state(seq::mix(seq::hash(t), static_cast<uint64_t>(op)));
  seq::observe(t);
}

J Root(int i) {
  switch (i) {
    case 0:
      return obj({{"a", obj({{"b", obj({{"c", str(kLong)}, {"d", num(4)}})}})}, {"x", arr({arr({str(kLong)}), num(1)})}});
    case 1:
      return arr({arr({arr({str(kLong)}), obj({{"a", str(kLong)}})}), str(kLong)});
    case 2:
      return obj({{"a", str(kLong)}, {"b", arr({obj({{"a", num(1)}}), boolean(true)})}});
    case 3:
      return arr({num(1), null(), boolean(true)});
    case 4:
      return str(kLong);
    case 5:
      return obj({{"a", obj({{"b", str(kLong)}})}});
    default:
      return arr({str(kLong)});
  }
}

// Histories of moves between all nodes of two values.
void moves(bool small) {
  J jr[2] = {Root(small ? 5 : choose(3)), Root(small ? 6 : choose(5))};
  Value root[2] = {Make(jr[0]), Make(jr[1])};
  for (int k = 0; k < seq::bound(); k++) {
    std::vector<Node> nodes;
    Nodes(&root[0], &jr[0], &nodes);
    const size_t n0 = nodes.size();
    Nodes(&root[1], &jr[1], &nodes);
    const size_t d = static_cast<size_t>(choose(static_cast<int>(nodes.size())));
    const int op = choose(6);
    const size_t s = static_cast<size_t>(choose(static_cast<int>(nodes.size())));
    Node& dst = nodes[d];
    Node& src = nodes[s];
    const bool same_root = (d < n0) == (s < n0);
    // Moving a value into itself or into its own part is not covered.
    if (same_root && Within(src.path, dst.path)) seq::done();
    if (src.j->t == J::kAny) seq::done();
    const J content = *src.j;
    const std::string what = "moving " + Text(content) + " onto " + Text(*dst.j);
    const bool inside = same_root && Within(dst.path, src.path);
    switch (op) {
      case 0: {
        note("assign: %s", what.c_str());
        *dst.v = std::move(*src.v);
        if (!inside) *src.j = J{J::kAny};
        *dst.j = content;
        break;
      }
      case 1: {
        // Over a temporary.
        note("construct, then assign: %s", what.c_str());
        Value t(std::move(*src.v));
        SAME(t, content, "a move-constructed value");
        *dst.v = std::move(t);
        if (!inside) *src.j = J{J::kAny};
        *dst.j = content;
        break;
      }
      case 2: {
        note("assign a clone: %s", what.c_str());
        *dst.v = src.v->Clone();
        *dst.j = content;
        break;
      }
      case 3:
      case 4: {
        if (dst.j->t != J::kObj) seq::done();
        static const char* const kKeys[] = {"a", "b", "new"};
        static const char* const kPaths[] = {"a.b", "b.a", "a.b.c", "x.y", "new"};
        const char* key = op == 3 ? kKeys[choose(3)] : kPaths[choose(5)];
        note("set %s of %s: %s", key, Text(*dst.j).c_str(), what.c_str());
        // The source's content is taken first, then the entry is set.
        J after = *dst.j;
        if (inside) {
          J* p = &after;
          for (size_t i = dst.path.size(); i < src.path.size(); i++) {
            if (p->t == J::kArr) {
              p = &p->a[static_cast<size_t>(src.path[i])];
            } else {
              auto it = p->o.begin();
              std::advance(it, src.path[i]);
              p = &it->second;
            }
          }
          *p = J{J::kAny};
        }
        J* p = &after;
        std::string rest = key;
        if (op == 4) {
          for (size_t dot; (dot = rest.find('.')) != std::string::npos; rest = rest.substr(dot + 1)) {
            J& c = p->o[rest.substr(0, dot)];
            // Through what was just moved away: unspecified.
            if (c.t == J::kAny) seq::done();
            if (c.t != J::kObj) c = obj();
            p = &c;
          }
        }
        p->o[rest] = content;
        Value* stored = op == 3 ? dst.v->SetKey(key, std::move(*src.v)).get()
                                : dst.v->SetPath(seq::Cut(key), std::move(*src.v)).get();
        SAME(*stored, content, "the stored item");
        if (!inside) *src.j = J{J::kAny};
        *dst.j = after;
        break;
      }
      default: {
        if (dst.j->t != J::kArr || inside) seq::done();
        note("append to %s: %s", Text(*dst.j).c_str(), what.c_str());
        Value t(std::move(*src.v));
        *src.j = J{J::kAny};
        dst.v->GetArray().push_back(std::move(t));
        dst.j->a.push_back(content);
        break;
      }
    }
    seq::step();
    SAME(root[0], jr[0], "first value");
    SAME(root[1], jr[1], "second value");
    seq::state(seq::hash(Text(jr[0]) + Text(jr[1])));
    seq::observe(Text(jr[0]) + Text(jr[1]));
  }
  if (flip()) {
    // The values outlive each other.
    Value t = std::move(root[0]);
    root[1] = Value();
    SAME(t, jr[0], "moved out at the end");
  }
}

// --- C17 ---

// The path, the key and the value given to a value may be parts of it.
void aliases() {
  static const char* const kSteps[] = {"a", "bb", "a-step-that-does-not-fit-into-a-short-string"};
  auto path_of = [](int n) {
    std::string r;
    for (int i = 0; i < n; i++) r += (i ? "." : "") + std::string(kSteps[choose(3)]);
    return r;
  };
  const std::string path = path_of(1 + choose(seq::bound()));
  // Where the string is that holds the path: at one of the path's own steps, or aside.
  const bool aside = flip();
  const int in_array = choose(2);
  Value v(Value::Type::kObject);
  J j = obj({});
  const std::string at = aside ? "other" : path.substr(0, path.find('.'));
  if (in_array) {
    Value::Array a;
    a.emplace_back(std::string(path));
    (void)v.SetKey(std::string(at), Value(std::move(a)));
    j.o[at] = arr({str(path)});
  } else {
    (void)v.SetKey(std::string(at), Value(std::string(path)));
    j.o[at] = str(path);
  }
  (void)v.SetKey("kept", Value(1));
  j.o["kept"] = num(1);
  SAME(v, j, "the object");
  Value* holder = v.FindKey(at).get();
  if (in_array) holder = &holder->GetArray()[0];
  std::string& text = holder->GetString();
  seq::step();
  switch (choose(4)) {
    case 0:
    case 1: {
      const int how = choose(3);
      note("set the path %s held in %s to %s", path.c_str(), at.c_str(), how == 0 ? "a number" : how == 1 ? "a clone of it" : "itself");
      if (how == 2) j.o[at] = in_array ? arr({J{J::kAny}}) : J{J::kAny};
      J* p = &j;
      std::string rest = path;
      for (size_t dot; (dot = rest.find('.')) != std::string::npos; rest = rest.substr(dot + 1)) {
        J& c = p->o[rest.substr(0, dot)];
        if (c.t != J::kObj) c = obj({});
        p = &c;
      }
      p->o[rest] = how ? str(path) : num(2);
      const Value* stored = how == 2   ? v.SetPath(text, std::move(*holder)).get()
                            : how == 1 ? v.SetPath(text, holder->Clone()).get()
                                       : v.SetPath(text, Value(2)).get();
      SAME(*stored, how ? str(path) : num(2), "the stored item");
      break;
    }
    case 2: {
      note("remove the key held in %s", at.c_str());
      const bool found = j.o.erase(path) == 1;
      SEQ_CHECK(v.RemoveKey(text) == found, "RemoveKey() is wrong");
      break;
    }
    default: {
      note("find by the text held in %s", at.c_str());
      SEQ_CHECK((v.FindKey(text) != nullptr) == (j.o.count(path) == 1), "FindKey() is wrong");
      break;
    }
  }
  SAME(v, j, "the object afterwards");
  seq::state(seq::hash(Text(j)));
  seq::observe(Text(j));
}


const char* const kKeys[] = {"a", "b", "", "a.b"};
const char* const kPaths[] = {"a", "b", "a.b", "b.a", "a.b.a", ".a", "a.", "", ".", ".."};

J MapValue(int i) {
  switch (i) {
    case 0:
      return num(1);
    case 1:
      return obj({{"b", boolean(true)}});
    case 2:
      return obj();
    case 3:
      return str(kLong);
    case 4:
      return num(0.5);
    case 5:
      return boolean(false);
    case 6:
      return num(1099511627776.0);
    case 7:
      return null();
    default:
      return arr({num(1)});
  }
}

const J* FindIn(const J& j, const std::string& path, bool dotted) {
  const J* p = &j;
  std::string rest = path;
  if (dotted) {
    for (size_t dot; (dot = rest.find('.')) != std::string::npos; rest = rest.substr(dot + 1)) {
      auto it = p->o.find(rest.substr(0, dot));
      if (it == p->o.end() || it->second.t != J::kObj) return nullptr;
      p = &it->second;
    }
  }
  auto it = p->o.find(rest);
  return it == p->o.end() ? nullptr : &it->second;
}

// All lookups of one object agree with the model.
void Lookups(const Value& v, Value& mv, const J& j) {
  const std::string& more = kLong;
  for (int i = 0; i < 6; i++) {
    const std::string key = i < 4 ? kKeys[i] : i == 4 ? std::string("a\0", 2) : more;
    const J* w = FindIn(j, key, false);
    const auto f = v.FindKey(seq::Cut(key));
    const Value* p = f.get();
    SEQ_CHECK((p != nullptr) == (w != nullptr), "FindKey(%s) in %s yields %d", key.c_str(), Text(j).c_str(),
              p != nullptr);
    SEQ_CHECK(mv.FindKey(seq::Cut(key)).get() == p, "the two FindKey(%s) differ", key.c_str());
    if (p) SAME(*p, *w, "FindKey()");
    for (int t = 0; t < 6; t++) {
      const bool has = w && w->t == t;
      SEQ_CHECK(v.FindKeyOfType(seq::Cut(key), kTypes[t]).get() == (has ? p : nullptr) &&
                    mv.FindKeyOfType(seq::Cut(key), kTypes[t]).get() == (has ? p : nullptr),
                "FindKeyOfType(%s, %d) in %s is wrong", key.c_str(), t, Text(j).c_str());
    }
    const auto b = v.FindBoolKey(seq::Cut(key));
    SEQ_CHECK(b.has_value() == (w && w->t == J::kBool) && (!b || *b == w->b), "FindBoolKey(%s) in %s is wrong",
              key.c_str(), Text(j).c_str());
    const auto d = v.FindDoubleKey(seq::Cut(key));
    SEQ_CHECK(d.has_value() == (w && w->t == J::kNum) && (!d || *d == w->n), "FindDoubleKey(%s) in %s is wrong",
              key.c_str(), Text(j).c_str());
    const bool integral = w && w->t == J::kNum && w->n == std::floor(w->n);
    const auto l = v.FindInt64Key(seq::Cut(key));
    SEQ_CHECK(l.has_value() == integral && (!l || static_cast<double>(*l) == w->n), "FindInt64Key(%s) in %s is wrong",
              key.c_str(), Text(j).c_str());
    const auto n = v.FindIntKey(seq::Cut(key));
    SEQ_CHECK(n.has_value() == (integral && w->n < 1e9) && (!n || *n == w->n), "FindIntKey(%s) in %s is wrong",
              key.c_str(), Text(j).c_str());
    const auto s = v.FindStringKey(seq::Cut(key));
    SEQ_CHECK((s.get() != nullptr) == (w && w->t == J::kStr) && (!s.get() || *s.get() == w->s),
              "FindStringKey(%s) in %s is wrong", key.c_str(), Text(j).c_str());
    SEQ_CHECK(v.FindArrayKey(seq::Cut(key)).get() == (w && w->t == J::kArr ? p : nullptr), "FindArrayKey(%s) is wrong",
              key.c_str());
    SEQ_CHECK(v.FindObjectKey(seq::Cut(key)).get() == (w && w->t == J::kObj ? p : nullptr), "FindObjectKey(%s) is wrong",
              key.c_str());
  }
  for (const char* path : kPaths) {
    const J* w = FindIn(j, path, true);
    const Value* p = v.FindPath(seq::Cut(path)).get();
    SEQ_CHECK((p != nullptr) == (w != nullptr), "FindPath(%s) in %s yields %d", path, Text(j).c_str(), p != nullptr);
    SEQ_CHECK(mv.FindPath(seq::Cut(path)).get() == p, "the two FindPath(%s) differ", path);
    if (p) SAME(*p, *w, "FindPath()");
  }
}

void maps(int values, int paths) {
  J j = obj();
  Value v(Type::kObject);
  for (int k = 0; k < seq::bound(); k++) {
    // On the object itself or on one inside of it.
    Value* target = &v;
    J* tj = &j;
    const int op = choose(4);
    if (op == 3) {
      if (k == 0) seq::done();
      static const char* const kIn[] = {"a", "a.b", "b"};
      const char* in = kIn[choose(3)];
      const J* w = FindIn(j, in, true);
      if (!w || w->t != J::kObj) seq::done();
      target = v.FindPath(seq::Cut(in)).get();
      tj = const_cast<J*>(w);
      note("inside %s", in);
    }
    const int kind = op == 3 ? choose(2) * 2 : op;
    seq::step();
    if (kind == 0) {
      const char* key = kKeys[choose(4)];
      const J val = MapValue(choose(values));
      note("SetKey(%s, %s)", key, Text(val).c_str());
      Value* r = target->SetKey(key, Make(val)).get();
      SAME(*r, val, "SetKey()'s result");
      tj->o[key] = val;
      SEQ_CHECK(target->FindKey(seq::Cut(key)).get() == r, "SetKey() does not return the stored item");
    } else if (kind == 1) {
      const char* path = kPaths[choose(paths)];
      const J val = MapValue(choose(values));
      note("SetPath(%s, %s)", path, Text(val).c_str());
      Value* r = target->SetPath(seq::Cut(path), Make(val)).get();
      SAME(*r, val, "SetPath()'s result");
      J* p = tj;
      std::string rest = path;
      for (size_t dot; (dot = rest.find('.')) != std::string::npos; rest = rest.substr(dot + 1)) {
        J& c = p->o[rest.substr(0, dot)];
        if (c.t != J::kObj) c = obj();
        p = &c;
      }
      p->o[rest] = val;
      SEQ_CHECK(target->FindPath(seq::Cut(path)).get() == r, "SetPath() does not return the stored item");
    } else {
      const char* key = kKeys[choose(4)];
      const bool had = tj->o.erase(key) > 0;
      note("RemoveKey(%s)", key);
      SEQ_CHECK(target->RemoveKey(seq::Cut(key)) == had, "RemoveKey(%s) returns %d", key, !had);
    }
    SAME(v, j, "after an operation");
  }
  Lookups(v, v, j);
  for (auto& [k, e] : j.o)
    if (e.t == J::kObj) Lookups(*v.FindKey(seq::Cut(k)).get(), *v.FindKey(seq::Cut(k)).get(), e);
  SAME(v, j, "after the lookups");
  seq::state(seq::hash(Text(j)));
  seq::observe(Text(v));
}

// Every operation that needs an object is stopped on anything else.
void not_objects() {
  const J j = Leaf(choose(kLeaves));
  const int op = choose(13);
  if (j.t == J::kObj) seq::done();
  if (!seq::kChecked) seq::done();
  Value v = Make(j);
  note("op %d on %s", op, Text(j).c_str());
  const bool stop = seq::stopped([&] {
    switch (op) {
      case 0:
        (void)v.FindKey("a");
        break;
      case 1:
        (void)v.SetKey("a", Value());
        break;
      case 2:
        (void)v.RemoveKey("a");
        break;
      case 3:
        (void)v.SetPath("a.b", Value());
        break;
      case 4:
        (void)v.FindPath("a");
        break;
      case 5:
        (void)v.FindKeyOfType("a", Type::kNull);
        break;
      case 6:
        (void)v.FindBoolKey("a");
        break;
      case 7:
        (void)v.FindIntKey("a");
        break;
      case 8:
        (void)v.FindInt64Key("a");
        break;
      case 9:
        (void)v.FindDoubleKey("a");
        break;
      case 10:
        (void)v.FindStringKey("a");
        break;
      case 11:
        (void)v.FindArrayKey("a");
        break;
      default:
        (void)v.FindObjectKey("a");
        break;
    }
  });
  SEQ_CHECK(stop, "operation %d on %s was not stopped", op, Text(j).c_str());
}

// Many keys and long paths.
void maps_many() {
  static const int kCounts[] = {20, 64, 65, 130, 257, 300, 1030};
  const int n = kCounts[choose(7)];
  const int shape = choose(4);
  note("%d keys of shape %d", n, shape);
  auto key = [&](int i) {
    std::string s;
    switch (shape) {
      case 0: return "k" + std::to_string(i);
      case 1: return "a." + std::to_string(i % 5) + "." + std::to_string(i);
      case 2:
        for (int k = 0; k < i; k++) s += static_cast<char>('a' + k % 26), s += '.';
        return s + "leaf";
      default: return std::string(static_cast<size_t>(i), 'x');
    }
  };
  Value v(Type::kObject);
  std::vector<int> set(static_cast<size_t>(n), -1);
  for (int pass = 0; pass < 2; pass++) {
    for (int i = 0; i < n; i++) {
      const int at = pass ? n - 1 - i : i;
      if (pass && at % 2) continue;
      Value* r = v.SetPath(seq::Cut(key(at)), Value(at * 2 + pass)).get();
      SEQ_CHECK(r->IsInt() && r->GetInt() == at * 2 + pass, "SetPath()'s result is wrong");
      set[static_cast<size_t>(at)] = at * 2 + pass;
      seq::step();
    }
    for (int i = 0; i < n; i++) {
      const Value* p = v.FindPath(seq::Cut(key(i))).get();
      SEQ_CHECK(p && p->IsInt() && p->GetInt() == set[static_cast<size_t>(i)], "FindPath() of entry %d is wrong", i);
      SEQ_CHECK(v.FindPath(seq::Cut(key(i) + ".x")).get() == nullptr, "FindPath() below entry %d finds something", i);
    }
    const Value c = v.Clone();
    SEQ_CHECK(c == v, "the clone is not equal");
    // (Ordering takes time exponential in the depth.)
    if (shape != 2) SEQ_CHECK(!(c < v) && !(v < c), "the clone is not equal");
    for (int i = 0; i < n; i++) {
      const Value* p = c.FindPath(seq::Cut(key(i))).get();
      SEQ_CHECK(p && p->GetInt() == set[static_cast<size_t>(i)], "entry %d of the clone is wrong", i);
    }
  }
  if (shape == 0 || shape == 3) {
    SEQ_CHECK(v.GetObject().size() == static_cast<size_t>(n), "the object has %zu entries", v.GetObject().size());
    for (int i = 0; i < n; i += 3) {
      SEQ_CHECK(v.RemoveKey(seq::Cut(key(i))), "RemoveKey() of entry %d finds nothing", i);
      SEQ_CHECK(!v.RemoveKey(seq::Cut(key(i))), "RemoveKey() of entry %d finds it again", i);
    }
    for (int i = 0; i < n; i++) {
      const Value* p = v.FindKey(seq::Cut(key(i))).get();
      SEQ_CHECK((p != nullptr) == (i % 3 != 0), "FindKey() of entry %d is wrong", i);
    }
  }
  seq::state(static_cast<uint64_t>(n * 4 + shape));
}

// C16, C18: deep, wide and long values.
void big_values() {
  static const int kSizes[] = {60, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 4000};
  const int shape = choose(6);
  const int n = kSizes[choose(12)];
  const bool deep = shape < 2;  // (Ordering takes time exponential in the depth.)
  note("size %d, shape %d", n, shape);
  auto make = [&](int at, int what) {
    // The element |at| (from the outside) is |what|.
    J j = num(0);
    switch (shape) {
      case 0:
        for (int i = n - 1; i >= 0; i--) {
          J o = arr();
          o.a.push_back(i == at ? num(what) : num(5));
          o.a.push_back(std::move(j));
          j = std::move(o);
        }
        break;
      case 1:
        for (int i = n - 1; i >= 0; i--) {
          J o = obj();
          o.o["b"] = std::move(j);
          o.o["c"] = i == at ? num(what) : num(5);
          j = std::move(o);
        }
        break;
      case 2:
        j = arr();
        for (int i = 0; i < n * 10; i++) j.a.push_back(i == at * 10 ? num(what) : num(5));
        break;
      case 3:
        j = obj();
        for (int i = 0; i < n; i++) j.o["key" + std::to_string(i)] = i == at ? num(what) : str(std::to_string(i));
        break;
      case 4:
        j = str(std::string(static_cast<size_t>(n) * 20, 'x'));
        j.s[static_cast<size_t>(at) * 20] = static_cast<char>('a' + what);
        break;
      default:
        j = obj();
        for (int i = 0; i < n; i++) j.o[std::string(static_cast<size_t>(i == at ? i + what * n : i) % 3000, 'k') + std::to_string(i)] = num(i);
        break;
    }
    return j;
  };
  const J ja = make(n / 2, 7);
  Value a = Make(ja);
  SAME(a, ja, "built");
  {
    Value c = a.Clone();
    SAME(c, ja, "the clone");
    SEQ_CHECK(c == a && !(c != a), "the clone is not equal");
    if (!deep) SEQ_CHECK(!(c < a) && !(a < c) && c <= a && c >= a, "the clone is not equal");
    Value d = std::move(c);
    SAME(d, ja, "moved");
    c = std::move(d);
    SAME(c, ja, "moved back");
  }
  SAME(a, ja, "after the clone is gone");
  // One element differs, at the beginning, in the middle or the end.
  for (int at : {0, 1, n / 2, n - 2, n - 1}) {
    const J jb = make(at, 8);
    const Value b = Make(jb);
    if (deep) {
      SEQ_CHECK(!(a == b) && (a != b), "values that differ at %d are equal", at);
      continue;
    }
    const bool eq = a == b, lt = a < b, gt = a > b;
    SEQ_CHECK(!eq && (a != b) && lt != gt, "values that differ at %d: equal %d, less %d, greater %d", at, eq, lt, gt);
    SEQ_CHECK((a <= b) == lt && (a >= b) == gt && (b < a) == gt && (b > a) == lt, "operators disagree");
  }
  seq::step();
  seq::state(static_cast<uint64_t>(n * 8 + shape));
}

// --- C18 ---

const std::vector<J>& OrderAlphabet() {
  static const auto& all = *new std::vector<J>([] {
    const double kMax53 = 9007199254740991.0;
    std::vector<J> r = {null(), boolean(false), boolean(true)};
    for (double d : {0.0, -0.0, 1.0, -1.0, 1.5, 1e-3, kMax53, -kMax53, 1e300, -1e300, 4503599627370496.5, 1e-10})
      r.push_back(num(d));
    for (auto s : {std::string(), std::string("a"), std::string("ab"), std::string("b"), std::string("a\0", 2),
                   std::string("\xff"), std::string("B")})
      r.push_back(str(s));
    const J one = num(1), two = num(2);
    for (auto& a : std::vector<std::vector<J>>{{}, {null()}, {one}, {one, two}, {two}, {two, one}, {arr()}, {obj()},
                                               {str("a")}, {arr({one})}, {one, one}, {boolean(true)}})
      r.push_back(arr(a));
    for (auto& o : std::vector<std::map<std::string, J>>{{},
                                                         {{"a", one}},
                                                         {{"a", two}},
                                                         {{"b", one}},
                                                         {{"a", one}, {"b", one}},
                                                         {{"a", one}, {"b", two}},
                                                         {{"", null()}},
                                                         {{"a", obj()}},
                                                         {{"a", null()}},
                                                         {{"a", arr({one})}},
                                                         {{"aa", one}}})
      r.push_back(obj(o));
    return r;
  }());
  return all;
}

void Relations(const Value& x, const Value& y, bool* eq, bool* lt, bool* gt) {
  *eq = x == y;
  *lt = x < y;
  *gt = x > y;
  SEQ_CHECK((x != y) == !*eq, "!= disagrees with == for %s and %s", Text(x).c_str(), Text(y).c_str());
  SEQ_CHECK((y == x) == *eq, "== is not symmetric for %s and %s", Text(x).c_str(), Text(y).c_str());
  SEQ_CHECK((y < x) == *gt, "< disagrees with > for %s and %s", Text(x).c_str(), Text(y).c_str());
  SEQ_CHECK((y > x) == *lt, "> disagrees with < for %s and %s", Text(x).c_str(), Text(y).c_str());
  SEQ_CHECK((x <= y) == !*gt, "<= disagrees with > for %s and %s", Text(x).c_str(), Text(y).c_str());
  SEQ_CHECK((x >= y) == !*lt, ">= disagrees with < for %s and %s", Text(x).c_str(), Text(y).c_str());
}

void Trichotomy(const Value& x, const Value& y, const J& jx, const J& jy) {
  bool eq, lt, gt;
  Relations(x, y, &eq, &lt, &gt);
  const std::string tx = Text(jx), ty = Text(jy);
  SEQ_CHECK(eq + lt + gt == 1, "%s and %s: equal %d, less %d, greater %d", tx.c_str(), ty.c_str(), eq, lt, gt);
  SEQ_CHECK(eq == (jx == jy), "%s and %s compare %s", tx.c_str(), ty.c_str(), eq ? "equal" : "unequal");
  // Within one type the order of numbers, strings and booleans is the
  // underlying one.
  if (jx.t == jy.t) {
    if (jx.t == J::kNum) SEQ_CHECK(lt == (jx.n < jy.n), "%s < %s is %d", tx.c_str(), ty.c_str(), lt);
    if (jx.t == J::kStr) SEQ_CHECK(lt == (jx.s < jy.s), "%s < %s is %d", tx.c_str(), ty.c_str(), lt);
  }
  seq::observe(eq * 4 + lt * 2 + gt);
}

void order_triples() {
  const auto& all = OrderAlphabet();
  const int n = static_cast<int>(all.size());
  const J &a = all[static_cast<size_t>(choose(n))], &b = all[static_cast<size_t>(choose(n))];
  note("%s ? %s", Text(a).c_str(), Text(b).c_str());
  const Value x = Make(a), y = Make(b);
  Trichotomy(x, y, a, b);
  seq::step();
  for (auto& c : all) {
    const Value z = Make(c);
    if (x < y && y < z) SEQ_CHECK(x < z, "< is not transitive for %s", Text(c).c_str());
    if (x == y && y == z) SEQ_CHECK(x == z, "== is not transitive for %s", Text(c).c_str());
    if (x == y) {
      SEQ_CHECK((x < z) == (y < z) && (z < x) == (z < y), "equal values order differently against %s",
                Text(c).c_str());
    }
    seq::step();
  }
  seq::state(seq::hash(Text(a) + "?" + Text(b)));
}

// All pairs of trees of a given depth.
void order_trees() {
  const int leaves = seq::bound() == 1 ? 4 : seq::bound();
  auto leaf = [&](int i) { return i == 0 ? null() : i == 1 ? num(1) : i == 2 ? num(2) : str("a"); };
  auto tree = [&] {
    auto node = [&](auto&& self, int d) -> J {
      const int c = choose(d > 0 ? leaves + 6 : leaves);
      if (c < leaves) return leaf(c);
      switch (c - leaves) {
        case 0:
          return arr();
        case 1:
          return arr({self(self, d - 1)});
        case 2: {
          J l = self(self, d - 1), r = self(self, d - 1);
          return arr({l, r});
        }
        case 3:
          return obj();
        case 4: {
          const char* k = flip() ? "a" : "b";
          return obj({{k, self(self, d - 1)}});
        }
        default: {
          J l = self(self, d - 1), r = self(self, d - 1);
          return obj({{"a", l}, {"b", r}});
        }
      }
    };
    return node(node, seq::bound() == 1 ? 1 : 2);
  };
  const J a = tree(), b = tree();
  note("%s ? %s", Text(a).c_str(), Text(b).c_str());
  const Value x = Make(a), y = Make(b), z = y.Clone();
  Trichotomy(x, y, a, b);
  SEQ_CHECK(y == z && !(y < z) && !(z < y), "a value differs from its clone");
  seq::step();
  seq::state(seq::hash(Text(a) + "?" + Text(b)));
}

// Numbers closer than machine epsilon.
void order_near() {
  static const double kNear[][2] = {{0.3, 0.1 + 0.2},
                                    {1e-17, 2e-17},
                                    {0.0, 1e-17},
                                    {0.0, 5e-324},
                                    {-1e-17, 1e-17},
                                    {1.0, 1.0 - 1.1102230246251565e-16},
                                    {0.5, 0.5 + 1.1102230246251565e-16},
                                    {1e-300, 1e-200}};
  static const char* const kNames[] = {"near_sum",  "near_1e-17",      "near_zero",        "near_denormal",
                                       "near_sign", "near_below_one", "near_above_half", "near_tiny"};
  const int i = choose(8);
  const int nest = choose(3);
  const bool swap = flip();
  J a = num(kNear[i][swap]), b = num(kNear[i][!swap]);
  if (nest == 1) {
    a = arr({a});
    b = arr({b});
  } else if (nest == 2) {
    a = obj({{"k", a}});
    b = obj({{"k", b}});
  }
  note("%s ? %s", Text(a).c_str(), Text(b).c_str());
  const Value x = Make(a), y = Make(b);
  SEQ_CHECK(x == x && !(x != x) && !(x < x) && x <= x && x >= x && !(x > x), "%s differs from itself",
            Text(a).c_str());
  bool eq, lt, gt;
  Relations(x, y, &eq, &lt, &gt);
  const bool less = kNear[i][swap] < kNear[i][!swap];
  seq::step();
  // Distinct, ordered as the numbers are: as it should be.
  if (!eq && lt == less && gt == !less) return;
  if (eq && lt == less && gt == !less)
    seq::finding(kNames[i], "%s and %s are equal and ordered", Text(a).c_str(), Text(b).c_str());
  seq::fail("%s and %s: equal %d, less %d, greater %d", Text(a).c_str(), Text(b).c_str(), eq, lt, gt);
}

// --- C19 ---

constexpr int64_t kMaxSafe = (int64_t{1} << 53) - 1;

void CheckNumber(const Value& v, double d) {
  const double got = v.GetDouble();
  SEQ_CHECK(memcmp(&got, &d, sizeof(d)) == 0, "%.17g is read back as %.17g", d, got);
  SEQ_CHECK(v.IsNumber() && v.type() == Type::kNumber, "%.17g is not a number", d);
  // An independent decision: the digits after the binary point.
  double ip;
  const bool integral = std::modf(d, &ip) == 0.0;
  const bool is64 = integral && d >= -static_cast<double>(kMaxSafe) && d <= static_cast<double>(kMaxSafe);
  const bool is32 = integral && d >= -2147483648.0 && d <= 2147483647.0;
  SEQ_CHECK(v.IsInt64() == is64, "IsInt64() of %.17g is %d", d, v.IsInt64());
  SEQ_CHECK(v.IsInt() == is32, "IsInt() of %.17g is %d", d, v.IsInt());
  if (is64) {
    const int64_t l = v.GetInt64();
    SEQ_CHECK(l == static_cast<int64_t>(d), "GetInt64() of %.17g is %lld", d, static_cast<long long>(l));
  } else if (seq::kChecked) {
    SEQ_CHECK(seq::stopped([&] { (void)v.GetInt64(); }), "GetInt64() of %.17g was not stopped", d);
  }
  if (is32) {
    const int n = v.GetInt();
    SEQ_CHECK(n == static_cast<int>(d), "GetInt() of %.17g is %d", d, n);
  } else if (seq::kChecked) {
    SEQ_CHECK(seq::stopped([&] { (void)v.GetInt(); }), "GetInt() of %.17g was not stopped", d);
  }
  Value o(Type::kObject);
  o.SetKey("n", v.Clone());
  const auto fd = o.FindDoubleKey("n");
  const auto fl = o.FindInt64Key("n");
  const auto fi = o.FindIntKey("n");
  SEQ_CHECK(fd && memcmp(&*fd, &d, sizeof(d)) == 0, "FindDoubleKey() of %.17g is wrong", d);
  SEQ_CHECK(fl.has_value() == is64 && (!fl || *fl == static_cast<int64_t>(d)), "FindInt64Key() of %.17g is wrong", d);
  SEQ_CHECK(fi.has_value() == is32 && (!fi || *fi == static_cast<int>(d)), "FindIntKey() of %.17g is wrong", d);
  seq::observe(is64 * 2 + is32);
  seq::step();
}

void doubles() {
  // +-2^e plus a small or last-place offset.
  const int e = choose(2098) - 1074;
  const bool neg = flip();
  const int off = choose(11);
  double d = std::ldexp(1.0, e);
  switch (off) {
    case 0:
      break;
    case 1:
      d += 1;
      break;
    case 2:
      d -= 1;
      break;
    case 3:
      d += 0.5;
      break;
    case 4:
      d -= 0.5;
      break;
    case 5:
      d = std::nextafter(d, 1e308);
      break;
    case 6:
      d = std::nextafter(d, 0);
      break;
    case 7:
      d *= 1.5;
      break;
    case 8:
      d += 2;
      break;
    case 9:
      d = d * 2 - 1;
      break;
    default:
      d = std::nextafter(d * 2, 0);
      break;
  }
  if (neg) d = -d;
  note("%.17g", d);
  if (!std::isfinite(d)) {
    if (seq::kChecked) SEQ_CHECK(seq::stopped([&] { Value v(d); }), "Value(%g) was not stopped", d);
    seq::done();
  }
  CheckNumber(Value(d), d);
  seq::state(static_cast<uint64_t>(e + 2000) * 32 + static_cast<uint64_t>(off * 2 + neg));
}

void integers() {
  const int e = choose(64);
  const bool neg = flip();
  const int off = choose(5) - 2;
  const unsigned __int128 mag = static_cast<unsigned __int128>(1) << e;
  __int128 x = static_cast<__int128>(mag) + off;
  if (neg) x = -x;
  if (x > std::numeric_limits<int64_t>::max() || x < std::numeric_limits<int64_t>::min()) seq::done();
  const int64_t l = static_cast<int64_t>(x);
  note("%lld", static_cast<long long>(l));
  if (l > kMaxSafe || l < -kMaxSafe) {
    if (seq::kChecked)
      SEQ_CHECK(seq::stopped([&] { Value v(l); }), "Value(%lld) was not stopped", static_cast<long long>(l));
    seq::done();
  }
  Value v(l);
  SEQ_CHECK(v.GetInt64() == l, "Value(%lld) is read back as %lld", static_cast<long long>(l),
            static_cast<long long>(v.GetInt64()));
  CheckNumber(v, static_cast<double>(l));
  if (l >= std::numeric_limits<int32_t>::min() && l <= std::numeric_limits<int32_t>::max()) {
    Value w(static_cast<int32_t>(l));
    SEQ_CHECK(w.GetInt() == l && w == v, "Value(int32_t{%lld}) is different", static_cast<long long>(l));
    CheckNumber(w, static_cast<double>(l));
  }
  seq::state(static_cast<uint64_t>(l));
}

void special_numbers() {
  const int c = choose(12);
  static const double kInf = std::numeric_limits<double>::infinity();
  static const double kNan = std::numeric_limits<double>::quiet_NaN();
  const double d[] = {kInf, -kInf, kNan, -kNan, std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(),
                      std::numeric_limits<double>::min(), -0.0, 0.0, std::numeric_limits<double>::denorm_min(),
                      std::numeric_limits<double>::signaling_NaN(), 0.1};
  note("%g", d[c]);
  seq::step();
  if (!std::isfinite(d[c])) {
    if (seq::kChecked) SEQ_CHECK(seq::stopped([&] { Value v(d[c]); }), "Value(%g) was not stopped", d[c]);
    seq::done();
  }
  CheckNumber(Value(d[c]), d[c]);
  // Extremes of the integer constructors.
  if (seq::kChecked) {
    for (int64_t l : {std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), kMaxSafe + 1,
                      -kMaxSafe - 1, std::numeric_limits<int64_t>::min() + 1})
      SEQ_CHECK(seq::stopped([&] { Value v(l); }), "Value(%lld) was not stopped", static_cast<long long>(l));
  }
}

// Getters of the wrong type are stopped; of the right one are not.
void getters() {
  const int c = choose(kLeaves + 6);
  J j;
  Value v;
  if (c < kLeaves) {
    j = Leaf(c);
    v = Make(j);
  } else {
    static const J kDefault[] = {null(), boolean(false), num(0), str(""), arr(), obj()};
    j = kDefault[c - kLeaves];
    v = Value(kTypes[c - kLeaves]);
  }
  note("%s", Text(j).c_str());
  SAME(v, j, "constructed");
  const int g = choose(6);
  const bool con = flip();
  const Value& cv = v;
  auto f = [&] {
    switch (g) {
      case 0:
        (void)cv.GetBool();
        break;
      case 1:
        (void)cv.GetDouble();
        break;
      case 2:
        if (con) (void)cv.GetString();
        else (void)v.GetString();
        break;
      case 3:
        if (con) (void)cv.GetArray();
        else (void)v.GetArray();
        break;
      case 4:
        if (con) (void)cv.GetObject();
        else (void)v.GetObject();
        break;
      default:
        if (con) (void)cv.GetInt();
        else (void)cv.GetInt64();
        break;
    }
  };
  static const J::T kWant[] = {J::kBool, J::kNum, J::kStr, J::kArr, J::kObj, J::kNum};
  const bool ok = j.t == kWant[g] && !(g == 5 && j.n != 0);
  seq::step();
  if (ok) {
    f();
  } else {
    if (seq::kChecked) SEQ_CHECK(seq::stopped(f), "getter %d of %s was not stopped", g, Text(j).c_str());
  }
  if (seq::kChecked) {
    const char* none = nullptr;
    SEQ_CHECK(seq::stopped([&] { Value x(none); }), "Value of a null string was not stopped");
  }
  SEQ_CHECK(Value("text").GetString() == "text" && Value(true).GetBool() && !Value(false).GetBool() &&
                Value().IsNull(),
            "a simple constructor is wrong");
}

SEQ_SCENARIOS(value) {
  seq::add1("C16", "contents", contents);
  seq::add1("C16", "big_values", big_values);
  seq::add1("C18", "order_big_values", big_values);
  seq::add1("C17", "maps_many", maps_many);
  seq::add("C17", "aliases", 3, 4, aliases);
  seq::add("C16", "clones", 2, 6, clones);
  seq::add("C16", "moves", 1, 2, [] { moves(false); });
  seq::add("C16", "moves_small", 3, 4, [] { moves(true); });
  seq::add("C17", "maps", 3, 4, [] { maps(4, 6); });
  seq::add("C17", "maps_small", 4, 6, [] { maps(2, 4); });
  seq::add("C17", "maps_all_values", 2, 3, [] { maps(9, 10); });
  {
    seq::Scenario s;
    s.group = "C17";
    s.name = "not_objects";
    s.body = not_objects;
    s.same = false;
    seq::add(s);
  }
  seq::add1("C18", "order_triples", order_triples);
  seq::add("C18", "order_trees", 2, 3, order_trees);
  seq::add1("C18", "order_near", order_near);
  seq::add1("C19", "doubles", doubles);
  seq::add1("C19", "integers", integers);
  seq::add1("C19", "special_numbers", special_numbers);
  seq::add1("C19", "getters", getters);
}

}  // namespace
