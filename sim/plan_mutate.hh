// Malformed plans: random structural damage to a well formed plan.
#pragma once
#include <pugixml.hpp>
#include <sstream>
#include <string>
#include <vector>
namespace planmut {
using std::string;
using std::vector;
static const char *const TAGS[] = {
  "PlexilPlan", "GlobalDeclarations", "CommandDeclaration", "Return", "Parameter", "AnyParameters", "StateDeclaration", "LibraryNodeDeclaration", "Node", "NodeId",
  "Priority", "UsingMutex", "Interface", "In", "InOut", "NodeBody", "Assignment", "RHS", "NumericRHS", "BooleanRHS", "StringRHS", "LookupRHS", "ArrayRHS",
  "LibraryNodeCall", "Alias", "NodeParameter", "NodeList", "VariableDeclarations", "DeclareVariable", "Name", "Type", "InitialValue", "DeclareArray", "MaxSize", "DeclareMutex",
  "StartCondition", "RepeatCondition", "PreCondition", "PostCondition", "InvariantCondition", "EndCondition", "ExitCondition", "SkipCondition", "NodeRef", "NodeStateVariable",
  "NodeStateValue", "NodeTimepointValue", "Timepoint", "Arguments", "LookupNow", "LookupOnChange", "Pair", "Tolerance", "Command", "Update", "Resource", "ResourceList",
  "ResourceName", "ResourcePriority", "ResourceUpperBound", "ResourceLowerBound", "ResourceReleaseAtTermination", "ArrayVariable", "ArrayElement", "Index", "StringValue", "ArrayValue", "BooleanValue",
  "IntegerValue", "RealValue", "DateValue", "DurationValue", "NodeOutcomeValue", "NodeFailureValue", "NodeCommandHandleValue", "NodeOutcomeVariable", "NodeFailureVariable",
  "NodeCommandHandleVariable", "IntegerVariable", "RealVariable", "StringVariable", "BooleanVariable", "DateVariable", "DurationVariable", "MutexName",
  "AND", "OR", "XOR", "NOT", "ADD", "SUB", "MUL", "DIV", "MOD", "MAX", "MIN", "SQRT", "ABS", "CEIL", "FLOOR", "ROUND", "TRUNC", "REAL_TO_INT", "GT", "LT", "GE", "LE", "EQNumeric", "NENumeric",
  "EQString", "NEString", "EQBoolean", "NEBoolean", "EQInternal", "NEInternal", "EQArray", "NEArray", "IsKnown", "Concat", "STRLEN", "ArraySize", "ArrayMaxSize", "ALL_KNOWN", "ANY_KNOWN",
  "Finished", "IterationEnded", "NodeExecuting", "Succeeded", "NodeWaiting", "NodeSkipped"};
static const char *const WORDS[] = {
  "", " ", "0", "1", "-1", "99999999999999999999", "1e400", "nan", "true", "zz", "Integer", "Real", "String", "Boolean", "BooleanArray", "IntegerArray", "StringArray", "Date", "Duration", "Mutex", "Any",
  "parent", "self", "child", "sibling", "Empty", "NodeList", "Command", "Assignment", "Update", "LibraryNodeCall", "FINISHED", "EXECUTING", "WAITING", "SUCCESS", "FAILURE", "START", "END", "A", "B", "Lib0", "gm0",
  "2147483648", "-2147483649", "0x10", "1.5", "-0", "P1D", "2020-01-01T00:00:00", "<", "a b"};
inline void elements(pugi::xml_node n, vector<pugi::xml_node> &v)
{
  for (pugi::xml_node c : n.children()) { if (c.type() == pugi::node_element) v.push_back(c); elements(c, v); }
}
inline bool below(pugi::xml_node n, pugi::xml_node top)
{
  for (; n; n = n.parent()) if (n == top) return true;
  return false;
}
template <class Choose> void damage1(pugi::xml_document &d, Choose choose)
{
  vector<pugi::xml_node> v;
  elements(d, v);
  if (v.size() < 3) return;
  pugi::xml_node n = v[choose(v.size())], o = v[choose(v.size())];
  switch (choose(14)) {
  case 0: case 1: n.parent().remove_child(n); break;
  case 2: n.parent().insert_copy_after(n, n); break;
  case 3: if (!below(o, n)) { pugi::xml_node p = n; p.append_copy(o); } break;
  case 4: if (!below(n, o)) n.parent().insert_copy_before(o, n); break;
  case 5: n.set_name(o.name()); break;
  case 6: n.set_name(TAGS[choose(sizeof TAGS / sizeof *TAGS)]); break;
  case 7: case 8: {
    vector<pugi::xml_node> l;
    for (pugi::xml_node x : v) if (x.first_child() && x.first_child().type() == pugi::node_pcdata) l.push_back(x);
    if (l.empty()) break;
    pugi::xml_node x = l[choose(l.size())];
    const char *w = choose(2) ? WORDS[choose(sizeof WORDS / sizeof *WORDS)] : l[choose(l.size())].child_value();
    string s = w;
    x.first_child().set_value(s.c_str());
    break;
  }
  case 9: while (n.first_child()) n.remove_child(n.first_child()); break;
  case 10: {                       // an attribute lost, changed or added
    if (n.first_attribute() && choose(3) == 0) { n.remove_attribute(n.first_attribute()); break; }
    if (n.first_attribute()) { n.first_attribute().set_value(WORDS[choose(sizeof WORDS / sizeof *WORDS)]); break; }
    n.append_attribute(choose(2) ? "dir" : "NodeType").set_value(WORDS[choose(sizeof WORDS / sizeof *WORDS)]);
    break;
  }
  case 11: n.prepend_child(choose(2) ? pugi::node_pcdata : pugi::node_comment).set_value(WORDS[choose(sizeof WORDS / sizeof *WORDS)]); break;
  case 12: {                       // replaced by something of another kind
    if (below(o, n) || below(n, o)) break;
    n.parent().insert_copy_after(o, n);
    n.parent().remove_child(n);
    break;
  }
  case 13: if (n.first_child()) n.remove_child(choose(2) ? n.first_child() : n.last_child()); break;
  }
}
template <class Choose> string damage(string const &x, unsigned k, Choose choose)
{
  pugi::xml_document d;
  if (!d.load_string(x.c_str())) return x;
  while (k--) damage1(d, choose);
  std::ostringstream s;
  d.print(s, "", pugi::format_raw | pugi::format_no_declaration);
  return s.str();
}
} // namespace planmut
