// C29: the command-line planner (apps/pddl.cc).  Its main() is renamed to
// pddl_app_main in the object file and called with std::cout redirected.
#include <algorithm>
#include <cstdlib>
#include <iostream>
#include <sstream>

#include "plan_model.h"

// NOLINTNEXTLINE: C linkage as main has none of its own after renaming.
extern "C" int pddl_app_main(int argc, char** argv);

using namespace model;  // NOLINT

namespace {

struct Run {
  std::string out, error;
  bool threw = false;
  int rc = 0;
};

class Redirect {
 public:
  Redirect() : old_(std::cout.rdbuf(ss_.rdbuf())) {}
  ~Redirect() {
    std::cout.rdbuf(old_);
    std::cout.clear();
  }
  std::string text() const { return ss_.str(); }

 private:
  std::ostringstream ss_;
  std::streambuf* old_;
};

Run RunApp(const std::vector<std::string>& args) {
  std::vector<std::string> copy = args;
  copy.insert(copy.begin(), "./pddl");
  std::vector<char*> argv;
  for (std::string& a : copy) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  Run r;
  Redirect redirect;
  try {
    r.rc = pddl_app_main(static_cast<int>(copy.size()), argv.data());
  } catch (const std::exception& e) {
    r.threw = true;
    r.error = e.what();
  }
  r.out = redirect.text();
  return r;
}

std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> r;
  std::string line;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {  // bold on or off
      while (i < s.size() && s[i] != 'm') i++;
      continue;
    }
    if (s[i] == '\n') {
      r.push_back(line);
      line.clear();
    } else if (s[i] == ' ' && !line.empty() && line.back() == ' ') {
      continue;  // The braces of an empty state.
    } else {
      line += s[i];
    }
  }
  if (!line.empty()) r.push_back(line);
  return r;
}

bool IsSeconds(const std::string& s) {
  if (s.size() < 2 || s.back() != 's') return false;
  char* end = nullptr;
  const double v = strtod(s.c_str(), &end);
  return *end == 's' && end[1] == '\0' && v >= 0;
}

bool IsNode(const std::string& s) { return s.find(" -> {") != std::string::npos; }

std::string NodeText(const std::string& call, const MState& m, size_t depth) {
  std::string r(depth, '-');
  if (depth > 0) r += ' ';
  r += call + " -> {";
  std::string sep = " ";
  for (const std::string& a : ToStrings(m)) {
    r += sep + a;
    sep = ", ";
  }
  return r + " }";
}

std::string Join(const std::vector<std::string>& v) {
  std::string r;
  for (const std::string& x : v) r += x + "\n";
  return r;
}

}  // namespace

PBT_TARGET(C29_tool, "the tool found two plans or more, one of them of two actions or more") {
  Opts o = PlanOpts(c);
  o.min_acts = std::max(o.min_acts, 1);
  o.min_preds = std::max(o.min_preds, 2);
  o.max_objs = 3;
  o.min_objs = std::min(o.min_objs, 3);
  o.max_ground = 24;
  World w = PlanWorld(c, o);
  if (c.chance(2, 3)) SteerGoal(c, &w);
  const std::string domain = DomainText(w, &c), problem = ProblemText(w, &c);
  PBT_LOG(c, domain << problem);
  const TempFile fd(domain), fp(problem);
  std::vector<std::string> args = {fd.path(), fp.path()};

  // Arguments the tool does not understand.
  if (c.chance(1, 40)) {
    switch (c.below(5)) {
      case 0: args.clear(); break;
      case 1: args.pop_back(); break;
      case 2: args.push_back("--depth"); break;
      case 3: args.push_back(c.pick(std::vector<std::string>{"--Depth", "-v", "3", "", "--verbos", "--verbosee", "depth"})); break;
      default:
        args.push_back("--verbose");
        args.push_back("--dept");
        args.push_back("3");
        break;
    }
    PBT_LOG(c, "bad arguments " << Join(args));
    const Run r = RunApp(args);
    PBT_CHECK(r.threw || r.rc != 0, "the tool accepts the arguments\n" << Join(args) << "and prints\n" << r.out);
    PBT_CHECK(r.out.find("Usage") != std::string::npos, "no usage text for the arguments\n" << Join(args) << "but\n" << r.out);
    PBT_CHECK(r.out.find("Found") == std::string::npos, "planning with the arguments\n" << Join(args));
    c.label("usage");
    return;
  }

  const MState root = Close(w, w.init);
  size_t depth = 5;
  bool given = c.flip();
  if (given) depth = static_cast<size_t>(c.range(0, 6));
  Tree tree;
  while (!Explore(w, root, depth, 400, &tree)) {
    if (depth == 0) throw pbt::Discard();
    depth--;
    given = true;
    tree = Tree();
  }
  bool verbose = false;
  std::vector<std::string> options;
  if (c.chance(1, 4)) {
    verbose = true;
    options.push_back("--verbose");
  }
  if (given) {
    if (c.chance(1, 8)) {  // The last one counts.
      options.push_back("--depth");
      options.push_back(std::to_string(c.range(0, 9)));
    }
    options.push_back("--depth");
    options.push_back(std::to_string(depth));
    if (verbose && c.flip()) {
      options.erase(options.begin());
      options.push_back("--verbose");
    }
  }
  args.insert(args.end(), options.begin(), options.end());
  PBT_LOG(c, "arguments: " << Join(options) << tree.plans.size() << " plans expected");
  const Run r = RunApp(args);
  PBT_CHECK(!r.threw && r.rc == 0, "the tool ends with status " << r.rc << " and error '" << r.error << "' after\n" << r.out);
  const std::vector<std::string> lines = Lines(r.out);

  // What it says about its arguments.
  auto has = [&](const std::string& s) { return std::find(lines.begin(), lines.end(), s) != lines.end(); };
  PBT_CHECK(has("Domain: " + args[0]) && has("Problem: " + args[1]), "the files are not named in\n" << r.out);
  PBT_CHECK(has("Depth: " + std::to_string(depth)), "the depth is not " << depth << " in\n" << r.out);
  size_t i = 0;
  while (i < lines.size() && lines[i] != "Planning:") i++;
  PBT_CHECK(i < lines.size(), "no plans are announced in\n" << r.out);

  // The plans: a line with the time, a line per node, an empty line.
  std::vector<std::string> got, expect;
  bool in_plan = false;
  std::string found;
  for (i++; i < lines.size(); i++) {
    if (IsSeconds(lines[i])) {
      in_plan = true;
      got.emplace_back();
    } else if (lines[i].empty()) {
      in_plan = false;
    } else if (in_plan) {
      got.back() += lines[i] + "\n";
    } else if (lines[i].compare(0, 6, "Found ") == 0) {
      found = lines[i];
    } else {
      PBT_CHECK(verbose, "unexpected line '" << lines[i] << "' in\n" << r.out);
    }
  }
  for (size_t k = 0; k < tree.plans.size(); k++) {
    std::string e = NodeText("", tree.states[k][0], 0) + "\n";
    for (size_t j = 0; j < tree.plans[k].size(); j++) e += NodeText(tree.plans[k][j], tree.states[k][j + 1], j + 1) + "\n";
    expect.push_back(e);
  }
  PBT_CHECK(got == expect, "the tool prints " << got.size() << " plans, expected " << expect.size() << ":\n" << Join(got) << "expected:\n" << Join(expect));
  const std::string prefix = "Found " + std::to_string(expect.size()) + " plans in ";
  PBT_CHECK(found.compare(0, prefix.size(), prefix) == 0 && IsSeconds(found.substr(prefix.size())), "the tool ends with '" << found << "', expected '" << prefix << "...'");
  if (verbose) {
    // Every node of the tree is shown as it is put into the queue.
    size_t shown = 0;
    for (const std::string& l : lines) shown += IsNode(l);
    PBT_CHECK(shown + 1 >= tree.nodes, "only " << shown << " of " << tree.nodes << " nodes are shown");
    c.label("verbose");
  }
  bool two = false;
  for (const auto& p : tree.plans) two |= p.size() >= 2;
  if (two && tree.plans.size() >= 2) c.nontrivial();
}
