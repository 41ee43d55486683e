// C27: the path tree (PathMatcherNode) on its own: insertion, lookup, clones.
#include <map>
#include <memory>

#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/path_matcher_node.h"
#include "model.h"
#include "sut.h"

using namespace model;
using sut::gt::PathMatcherLookupResult;
using sut::gt::PathMatcherNode;

namespace {

// A tree together with the list of what was inserted into it.
struct Tree {
  std::unique_ptr<PathMatcherNode> node;
  vector<Reg> regs;         // one per (method, shape); id is the latest data
  vector<bool> marked;      // the route was inserted again with mark_duplicates
  string name;
};

struct World {
  Case& c;
  vector<std::unique_ptr<int>> data;  // what the trees point to
  int clones = 0, repeats = 0, hits = 0;

  explicit World(Case& c) : c(c) {}

  void Insert(Tree* t, Reg r) {
    r.tmpl.verb.clear();
    string text = Print(r.tmpl);
    std::unique_ptr<sut::gt::HttpTemplate> ht = sut::gt::HttpTemplate::Parse(text);
    if (!ht) c.fail(pbt::Format("the template %s was refused", pbt::Show(text).c_str()));
    pbt::Fresh<PathMatcherNode::PathInfo::Builder> b_at;
    PathMatcherNode::PathInfo::Builder& b = *b_at;
    for (const string& s : ht->segments()) {
      if (s == sut::gt::HttpTemplate::kSingleParameterKey && c.coin())
        b.AppendSingleParameterNode();
      else
        b.AppendLiteralNode(s);
    }
    const bool mark = c.coin();
    data.emplace_back(new int(static_cast<int>(data.size())));
    r.id = *data.back();
    size_t at = t->regs.size();
    for (size_t i = 0; i < t->regs.size(); i++)
      if (SameRoute(t->regs[i], r)) at = i;
    const bool want = at == t->regs.size();
    const bool got = t->node->InsertPath(b.Build(), r.method, data.back().get(), mark);
    c.note("%s.InsertPath(%s, %s, #%d, mark=%d) -> %d", t->name.c_str(), pbt::Show(text).c_str(), pbt::Show(r.method).c_str(), r.id, mark, got);
    if (got != want) c.fail(pbt::Format("%s.InsertPath(%s, %s) returned %d, expected %d", t->name.c_str(), pbt::Show(text).c_str(), pbt::Show(r.method).c_str(), got, want));
    if (want) {
      t->regs.push_back(r);
      t->marked.push_back(false);
    } else {
      repeats++;
      t->regs[at].id = r.id;
      if (mark) t->marked[at] = true;
    }
  }

  void Look(const Tree& t, const string& method, const string& path) {
    Answer a = RefLookup(t.regs, Options(), method, path);
    PathMatcherLookupResult res;
    t.node->LookupPath(a.req.parts.begin(), a.req.parts.end(), method, &res);
    const int* got = static_cast<const int*>(res.data);
    const int* want = nullptr;
    bool multiple = false;
    if (a.reg) {
      hits++;
      want = data[a.reg->id].get();
      multiple = t.marked[a.reg - &t.regs[0]];
    }
    c.note("%s.LookupPath(%s, %s) -> %d%s", t.name.c_str(), pbt::Show(method).c_str(), pbt::Show(path).c_str(), got ? *got : -1, res.is_multiple ? " (multiple)" : "");
    if (got != want) c.fail(pbt::Format("%s.LookupPath(%s, %s) gave #%d, expected #%d (-1: nothing)", t.name.c_str(), pbt::Show(method).c_str(), pbt::Show(path).c_str(), got ? *got : -1, want ? *want : -1));
    if (res.is_multiple != multiple) c.fail(pbt::Format("%s.LookupPath(%s, %s) says multiple=%d, expected %d", t.name.c_str(), pbt::Show(method).c_str(), pbt::Show(path).c_str(), res.is_multiple, multiple));
  }
};

}  // namespace

PBT(C27, trees, 60000, 3000000) {
  World w(c);
  ConfigGen g;
  const bool dense = c.chance(2, 3);
  if (dense) MakeDense(&g);
  g.tg.verb_of_8 = 0;
  g.allow_duplicates = true;
  g.max_regs = 14;
  vector<Reg> pool = GenRegs(c, g);
  for (Reg& r : pool) {
    r.tmpl.verb.clear();
    if (r.method.find(':') != string::npos || r.method == "*v") r.method = "GET";
  }
  vector<Tree> trees(1);
  trees[0].node.reset(new PathMatcherNode());
  trees[0].name = "t0";
  const size_t n = 3 + c.size(30);
  if (c.chance(1, 2500)) {  // a large tree
    vector<Reg> many;
    AddFillers(c, 1 + c.raw(900), &many);
    for (const Reg& r : many) w.Insert(&trees[0], r);
    pool.insert(pool.end(), many.begin(), many.end());
  }
  for (size_t i = 0; i < n && !trees.empty(); i++) {
    Tree& t = trees[c.below(trees.size())];
    switch (c.weighted({6, 1, 6, 1})) {
      case 0: w.Insert(&t, pool[c.below(pool.size())]); break;
      case 1: {
        if (trees.size() > 4) break;
        Tree k;
        k.node = t.node->Clone();
        k.regs = t.regs;
        k.marked = t.marked;
        k.name = "t" + std::to_string(++w.clones);
        c.note("%s = %s.Clone()", k.name.c_str(), t.name.c_str());
        trees.push_back(std::move(k));
        break;
      }
      case 2: {
        string method = pool[c.below(pool.size())].method;
        if (method == "*" || c.chance(1, 6)) method = c.pickc({"GET", "POST"});
        string path = GenPath(c, pool, false, dense);
        for (const Tree& k : trees) w.Look(k, method, path);
        break;
      }
      default:
        if (trees.size() < 2) break;
        c.note("destroy %s", t.name.c_str());
        trees.erase(trees.begin() + (&t - &trees[0]));
        break;
    }
  }
  for (size_t i = 0; i < 4; i++) {
    const string method = c.pickc({"GET", "POST"});
    const string path = GenPath(c, pool, false, dense);
    for (const Tree& k : trees) w.Look(k, method, path);
  }
  if (w.clones > 0) c.label("with clones");
  if (w.repeats > 0) c.label("with repeated insertions");
  if (w.hits > 0) c.label("with lookups that find something");
  if ((w.clones > 0 || w.repeats > 0) && w.hits > 0) c.nontrivial(HashRegs(pool) ^ (uint64_t)w.data.size());
}
