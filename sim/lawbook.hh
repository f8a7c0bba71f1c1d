// Rules of the plan language, each with a fragment which breaks it and a twin
// which differs in nothing else and keeps it.  The fragment is put into a list
// "Uw" with some declarations and relatives; that list is put into a plan.
#ifndef LAWBOOK_HH
#define LAWBOOK_HH
#include <string>
#include <vector>

namespace lawbook
{
  using std::string;
  enum Where { KID, COND, DECL, IFACE };
  struct Rule { char const *what; Where where; string bad, good; };

  inline string T(char const *t, string const &x) { return string("<") + t + ">" + x + "</" + t + ">"; }
  inline string I(int i = 1) { return T("IntegerValue", std::to_string(i)); }
  inline string S(char const *s = "a") { return T("StringValue", s); }
  inline string B() { return T("BooleanValue", "true"); }
  inline string R() { return T("RealValue", "1.5"); }
  inline string iv(char const *n) { return T("IntegerVariable", n); }
  inline string sv(char const *n) { return T("StringVariable", n); }
  inline string av(char const *n) { return T("ArrayVariable", n); }
  inline string el(char const *n, string const &i) { return T("ArrayElement", T("Name", n) + T("Index", i)); }
  inline string arrv(char const *t, string const &x) { return string("<ArrayValue Type=\"") + t + "\">" + x + "</ArrayValue>"; }
  inline string decl(char const *n, char const *t, string const &init = "") { return T("DeclareVariable", T("Name", n) + T("Type", t) + (init.empty() ? "" : T("InitialValue", init))); }
  inline string adecl(char const *n, char const *t, int m, string const &init = "") { return T("DeclareArray", T("Name", n) + T("Type", t) + T("MaxSize", std::to_string(m)) + (init.empty() ? "" : T("InitialValue", init))); }
  inline string node(char const *type, char const *id, string const &head, string const &body) { return string("<Node NodeType=\"") + type + "\"><NodeId>" + id + "</NodeId>" + head + (body.empty() ? "" : T("NodeBody", body)) + "</Node>"; }
  inline string asg(string const &l, char const *rt, string const &r, string const &head = "") { return node("Assignment", "Ua", head, T("Assignment", l + T(rt, r))); }
  inline string start(string const &x) { return node("Empty", "Ue", T("StartCondition", x), ""); }
  inline string inlist(string const &iface, string const &kids) { return node("NodeList", "Uk", T("Interface", iface), T("NodeList", kids)); }
  inline string cmd(string const &name, string const &args = "", string const &ret = "") { return node("Command", "Ux", "", T("Command", ret + T("Name", name) + (args.empty() ? "" : T("Arguments", args)))); }
  inline string lookup(string const &name, string const &args = "") { return T("LookupNow", T("Name", name) + (args.empty() ? "" : T("Arguments", args))); }
  inline string internal(char const *var, char const *id, char const *val, char const *x) { return T("EQInternal", T(var, T("NodeId", id)) + T(val, x)); }
  inline string rel(char const *fun, char const *dir, char const *id = nullptr) { return T(fun, string("<NodeRef dir=\"") + dir + "\"" + (id ? string(">") + id + "</NodeRef>" : "/>")); }

  inline string globals() { return "<CommandDeclaration><Name>ucmd</Name><Parameter><Name>p</Name><Type>Integer</Type></Parameter></CommandDeclaration>"
      "<CommandDeclaration><Name>uret</Name><Return><Name>r</Name><Type>Integer</Type></Return></CommandDeclaration>"
      "<CommandDeclaration><Name>uany</Name><Parameter><Name>p</Name><Type>Integer</Type></Parameter><AnyParameters/></CommandDeclaration>"
      "<StateDeclaration><Name>usta</Name><Return><Name>r</Name><Type>Integer</Type></Return><Parameter><Name>p</Name><Type>Integer</Type></Parameter><AnyParameters/></StateDeclaration>"
      "<StateDeclaration><Name>udate</Name><Return><Name>r</Name><Type>Date</Type></Return></StateDeclaration>"
      "<StateDeclaration><Name>udur</Name><Return><Name>r</Name><Type>Duration</Type></Return></StateDeclaration>"
      "<DeclareMutex><Name>uG</Name></DeclareMutex>"; }

  inline std::vector<Rule> const &rules()
  {
    static std::vector<Rule> const v = {
      {"an element of an In array is assigned", KID, inlist(T("In", adecl("uA", "Integer", 2)), asg(el("uA", I()), "NumericRHS", I())), inlist(T("InOut", adecl("uA", "Integer", 2)), asg(el("uA", I()), "NumericRHS", I()))},
      {"an In array is assigned", KID, inlist(T("In", adecl("uA", "Integer", 2)), asg(av("uA"), "ArrayRHS", arrv("Integer", I()))), inlist(T("InOut", adecl("uA", "Integer", 2)), asg(av("uA"), "ArrayRHS", arrv("Integer", I())))},
      {"an InOut parameter stands for a variable which is only In", KID,
        inlist(T("In", decl("uI", "Integer")), node("NodeList", "Uk2", T("Interface", T("InOut", decl("uI", "Integer"))), T("NodeList", asg(iv("uI"), "NumericRHS", I())))),
        inlist(T("InOut", decl("uI", "Integer")), node("NodeList", "Uk2", T("Interface", T("InOut", decl("uI", "Integer"))), T("NodeList", asg(iv("uI"), "NumericRHS", I()))))},
      {"an array is written at a String index", KID, asg(el("uA", S()), "NumericRHS", I()), asg(el("uA", I()), "NumericRHS", I())},
      {"an array is written at a Boolean index", KID, asg(el("uA", B()), "NumericRHS", I()), asg(el("uA", iv("uI")), "NumericRHS", I())},
      {"an array is read at a String index", KID, asg(iv("uI"), "NumericRHS", el("uA", S())), asg(iv("uI"), "NumericRHS", el("uA", I()))},
      {"a scalar is indexed", KID, asg(iv("uI"), "NumericRHS", el("uI", I())), asg(iv("uI"), "NumericRHS", el("uA", I(0)))},
      {"AND of integers", KID, start(T("AND", I() + I())), start(T("AND", B() + B()))},
      {"NOT of two operands", KID, start(T("NOT", B() + B())), start(T("NOT", B()))},
      {"an Integer variable is a condition", KID, start(iv("uI")), start(T("BooleanVariable", "uB"))},
      {"an Integer is a condition", KID, start(I()), start(B())},
      {"a String is a condition", KID, start(S()), start(B())},
      {"a String is compared with a number", KID, start(T("EQNumeric", S() + I())), start(T("EQNumeric", I() + I()))},
      {"a number is compared with a String", KID, start(T("EQString", S() + I())), start(T("EQString", S() + S()))},
      {"a Boolean is added to a number", KID, asg(iv("uI"), "NumericRHS", T("ADD", I() + B())), asg(iv("uI"), "NumericRHS", T("ADD", I() + I()))},
      {"a String is added to a number", KID, asg(iv("uI"), "NumericRHS", T("ADD", I() + S())), asg(iv("uI"), "NumericRHS", T("ADD", I() + I()))},
      {"an element of an Integer array is assigned a String", KID, asg(el("uA", I()), "StringRHS", S()), asg(el("uAS", I()), "StringRHS", S())},
      {"an array is assigned a number", KID, asg(av("uA"), "NumericRHS", I()), asg(iv("uI"), "NumericRHS", I())},
      {"a number is assigned an array", KID, asg(iv("uI"), "ArrayRHS", av("uA")), asg(av("uA"), "ArrayRHS", av("uA"))},
      {"an Integer array is assigned a String array", KID, asg(av("uA"), "ArrayRHS", av("uAS")), asg(av("uAS"), "ArrayRHS", av("uAS"))},
      {"a String array is assigned an Integer array", KID, asg(av("uAS"), "ArrayRHS", arrv("Integer", I())), asg(av("uAS"), "ArrayRHS", arrv("String", S()))},
      {"a command gets fewer arguments than it needs at least", KID, cmd(S("uany")), cmd(S("uany"), I())},
      {"the declared argument of a command which takes any others has another type", KID, cmd(S("uany"), S() + I()), cmd(S("uany"), I() + S() + B())},
      {"a lookup gets fewer arguments than it needs at least", KID, asg(iv("uI"), "NumericRHS", lookup(S("usta"))), asg(iv("uI"), "NumericRHS", lookup(S("usta"), I() + S()))},
      {"a Real starts with something which is no number", DECL, decl("uX", "Real", T("RealValue", "1.5x")), decl("uX", "Real", T("RealValue", "1.5"))},
      {"a Real starts with an exponent which is no number", DECL, decl("uX", "Real", T("RealValue", "2e")), decl("uX", "Real", T("RealValue", "-2.25e-3"))},
      {"a Real starts with a sign and no number", DECL, decl("uX", "Real", T("RealValue", "-")), decl("uX", "Real", T("RealValue", "-7"))},
      {"a Real starts with a lookup", DECL, decl("uX", "Real", lookup(S("udate"))), decl("uX", "Real", T("RealValue", "0"))},
      {"an Integer is assigned a Duration", KID, asg(iv("uI"), "NumericRHS", lookup(S("udur"))), asg(T("RealVariable", "uR"), "NumericRHS", lookup(S("udur")))},
      {"a Date is compared with a String", KID, start(T("GT", lookup(S("udate")) + S())), start(T("GT", lookup(S("udate")) + lookup(S("time"))))},
      {"a Real starts with a word", DECL, decl("uX", "Real", T("RealValue", "INFINITE")), decl("uX", "Real", T("RealValue", "+17."))},
      {"a Real starts with a point and no digit", DECL, decl("uX", "Real", T("RealValue", ".")), decl("uX", "Real", T("RealValue", ".5"))},
      {"a mutex nobody declared is used beside one of the list", KID, node("Empty", "Ue", T("UsingMutex", T("Name", "uNone")), ""), node("Empty", "Ue", T("UsingMutex", T("Name", "uM")), "")},
      {"a mutex nobody declared is used beside a global one", KID, node("Empty", "Ue", T("UsingMutex", T("Name", "uG0")), ""), node("Empty", "Ue", T("UsingMutex", T("Name", "uG")), "")},
      {"a mutex is used outside the node which declares it", KID,
        node("Empty", "Ue", T("UsingMutex", T("Name", "uIn")), "") + node("NodeList", "Ui", T("VariableDeclarations", T("DeclareMutex", T("Name", "uIn"))), "<NodeList/>"),
        node("NodeList", "Ui", T("VariableDeclarations", T("DeclareMutex", T("Name", "uIn"))), T("NodeList", node("Empty", "Ue", T("UsingMutex", T("Name", "uIn")), "")))},
      {"a variable is read outside the node which declares it", KID,
        start(T("BooleanVariable", "uIn")) + node("NodeList", "Ui", T("VariableDeclarations", decl("uIn", "Boolean")), "<NodeList/>"),
        node("NodeList", "Ui", T("VariableDeclarations", decl("uIn", "Boolean")), T("NodeList", start(T("BooleanVariable", "uIn"))))},
      {"an array starts with more elements than it has", DECL, adecl("uX", "Integer", 1, arrv("Integer", I() + I())), adecl("uX", "Integer", 2, arrv("Integer", I() + I()))},
      {"a String array starts with Integers", DECL, adecl("uX", "String", 3, arrv("Integer", I() + I())), adecl("uX", "Integer", 3, arrv("Integer", I() + I()))},
      {"an Integer starts with a Real", DECL, decl("uX", "Integer", R()), decl("uX", "Real", R())},
      {"an Integer starts with something which is no number", DECL, decl("uX", "Integer", T("IntegerValue", "12x")), decl("uX", "Integer", I(12))},
      {"an Integer starts with a number which is no Integer", DECL, decl("uX", "Integer", T("IntegerValue", "99999999999")), decl("uX", "Integer", T("IntegerValue", "2147483647"))},
      {"a Boolean starts with something which is no Boolean", DECL, decl("uX", "Boolean", T("BooleanValue", "maybe")), decl("uX", "Boolean", T("BooleanValue", "false"))},
      {"a variable has a type which does not exist", DECL, decl("uX", "Complex"), decl("uX", "Real")},
      {"an array has a negative size", DECL, adecl("uX", "Real", -1), adecl("uX", "Real", 1)},
      {"a variable and an array have one name", DECL, adecl("uI", "Integer", 1), adecl("uX", "Integer", 1)},
      {"two mutexes of one node have one name", DECL, T("DeclareMutex", T("Name", "uM")), T("DeclareMutex", T("Name", "uX"))},
      {"two children of a list have one name", KID, node("Empty", "Uf", "", ""), node("Empty", "Ue", "", "")},
      {"a command's name is a number", KID, cmd(I()), cmd(S("zz"))},
      {"a command gets an argument of another type than declared", KID, cmd(S("ucmd"), S()), cmd(S("ucmd"), I())},
      {"a command gets more arguments than declared", KID, cmd(S("ucmd"), I() + I()), cmd(S("ucmd"), iv("uI"))},
      {"a command gets none of the arguments which are declared", KID, cmd(S("ucmd")), cmd(S("uret"))},
      {"a command gets an argument although none is declared", KID, cmd(S("uret"), I()), cmd(S("uret"), "", iv("uI"))},
      {"a command's result goes to a variable of another type than declared", KID, cmd(S("uret"), "", sv("uS")), cmd(S("uret"), "", iv("uI"))},
      {"a lookup gets fewer arguments than declared", KID, asg(iv("uI"), "NumericRHS", lookup(S("p"))), asg(iv("uI"), "NumericRHS", lookup(S("p"), I()))},
      {"a lookup gets more arguments than declared", KID, asg(iv("uI"), "NumericRHS", lookup(S("p"), I() + I())), asg(iv("uI"), "NumericRHS", lookup(S("p"), iv("uI")))},
      {"a lookup gets an argument of another type than declared", KID, asg(iv("uI"), "NumericRHS", lookup(S("p"), S())), asg(iv("uI"), "NumericRHS", lookup(S("p"), I()))},
      {"a lookup's result is used as another type than declared", KID, asg(sv("uS"), "StringRHS", lookup(S("p"), I())), asg(iv("uI"), "NumericRHS", lookup(S("p"), I()))},
      {"a node refers to a sibling which does not exist", KID, start(rel("Finished", "sibling", "zz")), start(rel("Finished", "sibling", "Uf"))},
      {"a node refers to a child which does not exist", COND, T("EndCondition", rel("Finished", "child", "zz")), T("EndCondition", rel("Finished", "child", "Uf"))},
      {"a node refers to a node inside its sibling", KID, start(internal("NodeStateVariable", "Ug", "NodeStateValue", "FINISHED")), start(internal("NodeStateVariable", "Ul", "NodeStateValue", "FINISHED"))},
      {"a node's state is compared with a word which is no state", KID, start(internal("NodeStateVariable", "Uf", "NodeStateValue", "NOWHERE")), start(internal("NodeStateVariable", "Uf", "NodeStateValue", "WAITING"))},
      {"a node's outcome is compared with a word which is no outcome", KID, start(internal("NodeOutcomeVariable", "Uf", "NodeOutcomeValue", "FINISHED")), start(internal("NodeOutcomeVariable", "Uf", "NodeOutcomeValue", "SUCCESS"))},
      {"a node's failure is compared with a word which is no failure", KID, start(internal("NodeFailureVariable", "Uf", "NodeFailureValue", "SUCCESS")), start(internal("NodeFailureVariable", "Uf", "NodeFailureValue", "PRE_CONDITION_FAILED"))},
      {"a node's state is compared with an outcome", KID, start(internal("NodeStateVariable", "Uf", "NodeOutcomeValue", "SUCCESS")), start(internal("NodeStateVariable", "Uf", "NodeStateValue", "FINISHED"))},
      {"the command handle of a node which is no command is read", KID, start(internal("NodeCommandHandleVariable", "Uf", "NodeCommandHandleValue", "COMMAND_SUCCESS")), start(internal("NodeCommandHandleVariable", "Uc", "NodeCommandHandleValue", "COMMAND_SUCCESS"))},
      {"a node has two start conditions", KID, node("Empty", "Ue", T("StartCondition", B()) + T("StartCondition", B()), ""), node("Empty", "Ue", T("StartCondition", B()) + T("EndCondition", B()), "")},
      {"a condition is empty", KID, start(""), start(B())},
      {"a priority is no number", KID, asg(iv("uI"), "NumericRHS", I(), T("Priority", "high")), asg(iv("uI"), "NumericRHS", I(), T("Priority", "3"))},
      {"a priority is negative", KID, asg(iv("uI"), "NumericRHS", I(), T("Priority", "-3")), asg(iv("uI"), "NumericRHS", I(), T("Priority", "0"))},
      {"a node which assigns nothing has a priority", KID, node("Empty", "Ue", T("Priority", "1"), ""), asg(iv("uI"), "NumericRHS", I(), T("Priority", "1"))},
      {"a node has a type which does not exist", KID, node("Loop", "Ue", "", ""), node("Empty", "Ue", "", "")},
      {"an empty node has a body", KID, node("Empty", "Ue", "", "<NodeList/>"), node("NodeList", "Ue", "", "<NodeList/>")},
      {"an assignment has no body", KID, node("Assignment", "Ue", "", ""), node("Empty", "Ue", "", "")},
      {"an In parameter is nothing the parent has", KID, inlist(T("In", decl("uNone", "Integer")), ""), inlist(T("In", decl("uI", "Integer")), "")},
      {"an In parameter has another type than the parent's variable", KID, inlist(T("In", decl("uI", "String")), ""), inlist(T("In", decl("uI", "Integer")), "")},
      {"the size of a scalar is taken", KID, asg(iv("uI"), "NumericRHS", T("ArraySize", iv("uI"))), asg(iv("uI"), "NumericRHS", T("ArraySize", av("uA")))},
      {"a number is concatenated with a String", KID, asg(sv("uS"), "StringRHS", T("Concat", S() + I())), asg(sv("uS"), "StringRHS", T("Concat", S() + S()))},
      {"a Real is assigned to an Integer", KID, asg(iv("uI"), "NumericRHS", R()), asg(T("RealVariable", "uR"), "NumericRHS", R())},
      {"an Integer is assigned a Boolean", KID, asg(iv("uI"), "BooleanRHS", B()), asg(T("BooleanVariable", "uB"), "BooleanRHS", B())},
      {"a threshold is a String", KID, start(T("GT", T("LookupOnChange", T("Name", S("uu")) + T("Tolerance", S())) + I())), start(T("GT", T("LookupOnChange", T("Name", S("uu")) + T("Tolerance", R())) + I()))},
      {"a resource has no priority", KID,
        node("Command", "Ux", "", T("Command", T("ResourceList", T("Resource", T("ResourceName", S()))) + T("Name", S()))),
        node("Command", "Ux", "", T("Command", T("ResourceList", T("Resource", T("ResourceName", S()) + T("ResourcePriority", I()))) + T("Name", S())))},
      {"a resource's name is a number", KID,
        node("Command", "Ux", "", T("Command", T("ResourceList", T("Resource", T("ResourceName", I()) + T("ResourcePriority", I()))) + T("Name", S()))),
        node("Command", "Ux", "", T("Command", T("ResourceList", T("Resource", T("ResourceName", sv("uS")) + T("ResourcePriority", iv("uI")))) + T("Name", S())))},
      {"an update names a value twice", KID,
        node("Update", "Ux", "", T("Update", T("Pair", T("Name", "a") + I()) + T("Pair", T("Name", "a") + I()))),
        node("Update", "Ux", "", T("Update", T("Pair", T("Name", "a") + I()) + T("Pair", T("Name", "b") + I())))},
    };
    return v;
  }

  // the list which holds the fragment
  inline string wrapper(Rule const &r, bool bad)
  {
    string const &x = bad ? r.bad : r.good;
    string relatives = node("Empty", "Uf", "", "") + node("Command", "Uc", "", T("Command", T("Name", S("zz")))) + node("NodeList", "Ul", "", T("NodeList", node("Empty", "Ug", "", "")));
    return node("NodeList", "Uw",
                (r.where == COND ? x : "")
                + T("VariableDeclarations", decl("uI", "Integer", I()) + decl("uB", "Boolean") + decl("uS", "String", S()) + decl("uR", "Real")
                    + adecl("uA", "Integer", 2) + adecl("uAS", "String", 2) + T("DeclareMutex", T("Name", "uM"))
                    + (r.where == DECL ? x : "")),
                T("NodeList", relatives + (r.where == KID ? x : "")));
  }
}
#endif
