#!/usr/bin/env python3
"""Generates C++ message/service/action headers for simros from msgs.spec."""
import sys, os, re

BUILTIN = {"bool": "uint8_t", "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t", "uint16": "uint16_t",
           "int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t",
           "float32": "float", "float64": "double", "string": "std::string", "time": "ros::Time",
           "duration": "ros::Duration"}

def parse(path):
    defs, cur = [], None
    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("#") or not line.strip():
            continue
        if line.startswith("=== "):
            _, kind, name = line.split()
            cur = (kind, name, [])
            defs.append(cur)
        else:
            cur[2].append(line)
    return defs

def sections(lines):
    secs = [[]]
    for l in lines:
        if l == "---":
            secs.append([])
        else:
            secs[-1].append(l)
    return secs

def cpptype(t):
    m = re.match(r"^(.*?)\[(\d*)\]$", t)
    base, arr = (m.group(1), m.group(2)) if m else (t, None)
    b = BUILTIN.get(base)
    inc = None
    if b is None:
        b = "::" + base.replace("/", "::")
        inc = base
    if arr is None:
        return b, inc, base in BUILTIN and base not in ("string", "time", "duration")
    if arr == "":
        return "std::vector<%s>" % b, inc, False
    return "boost::array<%s, %s>" % (b, arr), inc, "fixed"

def emit(out, full, lines):
    pkg, name = full.split("/")
    fields, consts, incs = [], [], []
    for l in lines:
        if l.startswith("const "):
            _, t, rest = l.split(None, 2)
            n, v = rest.split("=")
            consts.append((BUILTIN[t], n, v))
            continue
        t, n = l.split()
        ct, inc, prim = cpptype(t)
        fields.append((ct, n, prim))
        if inc and inc not in incs:
            incs.append(inc)
    guard = (pkg + "_MESSAGE_" + name).upper() + "_H"
    s = ["#ifndef %s" % guard, "#define %s" % guard, "#include <sim/msg_base.h>"]
    for i in incs:
        s.append("#include <%s.h>" % i)
    s += ["namespace %s {" % pkg, "struct %s {" % name]
    s.append("  typedef boost::shared_ptr< ::%s::%s> Ptr;" % (pkg, name))
    s.append("  typedef boost::shared_ptr< ::%s::%s const> ConstPtr;" % (pkg, name))
    for t, n, v in consts:
        s.append("  enum { %s = %s };" % (n, v))
    for ct, n, prim in fields:
        s.append("  typedef %s _%s_type;" % (ct, n))
        s.append("  %s %s;" % (ct, n))
    inits = []
    for ct, n, prim in fields:
        if prim is True:
            inits.append("%s(0)" % n)
        else:
            inits.append("%s()" % n)
    body = " ".join("%s.assign(%s);" % (n, "0") for ct, n, prim in fields if prim == "fixed" and ("double" in ct or "float" in ct))
    s.append("  %s()%s { %s }" % (name, (" : " + ", ".join(inits)) if inits else "", body))
    s.append("  static const char* __datatype() { return \"%s\"; }" % full)
    s.append("  template <class S, class M> static void __io(S& s, M& m) { (void)s; (void)m; %s }" %
             " ".join("s.next(m.%s);" % n for _, n, _ in fields))
    s.append("};")
    s.append("typedef boost::shared_ptr< ::%s::%s> %sPtr;" % (pkg, name, name))
    s.append("typedef boost::shared_ptr< ::%s::%s const> %sConstPtr;" % (pkg, name, name))
    s.append("inline bool operator==(const %s& a, const %s& b) { (void)a; (void)b; return true%s; }" %
             (name, name, "".join(" && a.%s == b.%s" % (n, n) for _, n, _ in fields)))
    s.append("inline bool operator!=(const %s& a, const %s& b) { return !(a == b); }" % (name, name))
    s.append("inline std::ostream& operator<<(std::ostream& o, const %s&) { return o << \"%s\"; }" % (name, full))
    s += ["}", "#endif", ""]
    d = os.path.join(out, pkg)
    os.makedirs(d, exist_ok=True)
    write(os.path.join(d, name + ".h"), "\n".join(s))

def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)

def main(spec, out):
    for kind, full, lines in parse(spec):
        pkg, name = full.split("/")
        if kind == "msg":
            emit(out, full, lines)
        elif kind == "srv":
            req, res = sections(lines)
            emit(out, full + "Request", req)
            emit(out, full + "Response", res)
            g = (pkg + "_SERVICE_" + name).upper() + "_H"
            write(os.path.join(out, pkg, name + ".h"), """#ifndef {g}
#define {g}
#include <{p}/{n}Request.h>
#include <{p}/{n}Response.h>
namespace {p} {{
struct {n} {{
  typedef {n}Request Request;
  typedef {n}Response Response;
  typedef Request RequestType;
  typedef Response ResponseType;
  Request request;
  Response response;
  static const char* __datatype() {{ return "{p}/{n}"; }}
}};
}}
#endif
""".format(g=g, p=pkg, n=name))
        elif kind == "action":
            goal, res, fb = sections(lines)
            emit(out, full + "Goal", goal)
            emit(out, full + "Result", res)
            emit(out, full + "Feedback", fb)
            emit(out, full + "ActionGoal", ["std_msgs/Header header", "actionlib_msgs/GoalID goal_id", "%sGoal goal" % full])
            emit(out, full + "ActionResult", ["std_msgs/Header header", "actionlib_msgs/GoalStatus status", "%sResult result" % full])
            emit(out, full + "ActionFeedback", ["std_msgs/Header header", "actionlib_msgs/GoalStatus status", "%sFeedback feedback" % full])
            g = (pkg + "_ACTION_" + name).upper() + "_H"
            write(os.path.join(out, pkg, name + "Action.h"), """#ifndef {g}
#define {g}
#include <{p}/{n}ActionGoal.h>
#include <{p}/{n}ActionResult.h>
#include <{p}/{n}ActionFeedback.h>
namespace {p} {{
struct {n}Action {{
  typedef {n}Goal Goal;
  typedef {n}Result Result;
  typedef {n}Feedback Feedback;
  typedef {n}ActionGoal _action_goal_type;
  typedef {n}ActionResult _action_result_type;
  typedef {n}ActionFeedback _action_feedback_type;
  _action_goal_type action_goal;
  _action_result_type action_result;
  _action_feedback_type action_feedback;
}};
}}
#endif
""".format(g=g, p=pkg, n=name))
    # dependency stamp
    write(os.path.join(out, "msgs.stamp"), "ok\n")

if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
