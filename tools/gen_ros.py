#!/usr/bin/env python3
"""Generate the ROS artefacts the checks need from /repo's own definitions:
  <out>/cpp/controller_manager_msgs/*.h   C++ structs for the .msg/.srv files
  <out>/py/controller_manager_msgs/{msg,srv}/__init__.py  Python classes for the same
  <out>/cpp/stub_plugin_names.h           class type -> plugin lookup name, from the plugin XML files
"""
import os, re, sys, glob
import xml.etree.ElementTree as ET
repo, out = sys.argv[1], sys.argv[2]
PKG = "controller_manager_msgs"
PRIM = {"bool": ("uint8_t", "False"), "byte": ("int8_t", "0"), "char": ("uint8_t", "0"), "int8": ("int8_t", "0"), "uint8": ("uint8_t", "0"),
        "int16": ("int16_t", "0"), "uint16": ("uint16_t", "0"), "int32": ("int32_t", "0"), "uint32": ("uint32_t", "0"),
        "int64": ("int64_t", "0"), "uint64": ("uint64_t", "0"), "float32": ("float", "0."), "float64": ("double", "0."),
        "string": ("std::string", "''"), "time": ("ros::Time", "None"), "duration": ("ros::Duration", "None")}

def parse(text):
    fields, consts = [], []
    for line in text.splitlines():
        if re.match(r"\s*string\s+\w+\s*=", line):
            m = re.match(r"\s*string\s+(\w+)\s*=(.*)", line); consts.append(("string", m.group(1), m.group(2).strip())); continue
        line = line.split("#", 1)[0].strip()
        if not line: continue
        m = re.match(r"([\w/\[\]]+)\s+(\w+)\s*=\s*(.*)$", line)
        if m: consts.append(m.groups()); continue
        m = re.match(r"([\w/]+)(\[(\d*)\])?\s+(\w+)$", line)
        if not m: raise SystemExit("cannot parse: %r" % line)
        fields.append((m.group(1), m.group(2) is not None, m.group(3) or "", m.group(4)))
    return fields, consts

def base(t): return t.split("/")[-1]
def cpp_struct(name, fc, deps, indent=""):
    fields, consts = fc
    o = [indent + "struct %s {" % name]
    for t, n, v in consts:
        o.append(indent + ("  enum { %s = %s };" % (n, v) if t != "string" else "  static const char* %s() { return \"%s\"; }" % (n, v)))
    for t, arr, sz, n in fields:
        if t in PRIM: ct = PRIM[t][0]; init = "{}" 
        else: ct = "::%s::%s" % (PKG, base(t)); deps.add(base(t)); init = ""
        if arr: ct = "std::vector<%s>" % ct if not sz else "std::array<%s, %s>" % (ct, sz); init = ""
        o.append(indent + "  %s %s%s;" % (ct, n, init))
    o.append(indent + "  typedef std::shared_ptr<%s> Ptr; typedef std::shared_ptr<const %s> ConstPtr;" % (name, name))
    o.append(indent + "};")
    return "\n".join(o)
def header(name, body, deps):
    inc = "".join("#include <%s/%s.h>\n" % (PKG, d) for d in sorted(deps))
    return "#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n#include <ros/time.h>\n%snamespace %s {\n%s\n}\n" % (inc, PKG, body)
def py_class(name, fc, typ):
    fields, consts = fc
    o = ["class %s(_Message):" % name, "    _type = %r" % typ, "    __slots__ = %r" % [f[3] for f in fields],
         "    _types = %r" % {f[3]: f[0] + ("[]" if f[1] else "") for f in fields}]
    for t, n, v in consts: o.append("    %s = %s" % (n, repr(v) if t == "string" else v))
    o.append("    def _defaults(self):")
    o.append("        return {" + ", ".join("%r: %s" % (n, "[]" if arr else (PRIM[t][1] if t in PRIM else base(t) + "()")) for t, arr, sz, n in fields) + "}")
    return "\n".join(o) + "\n"
def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(s)

msgs = sorted(glob.glob(os.path.join(repo, PKG, "msg", "*.msg"))); srvs = sorted(glob.glob(os.path.join(repo, PKG, "srv", "*.srv")))
if not msgs or not srvs: raise SystemExit("no message definitions found")
pm, ps = [], []
for f in msgs:
    n = os.path.basename(f)[:-4]; fc = parse(open(f).read()); deps = set()
    body = cpp_struct(n, fc, deps); write(os.path.join(out, "cpp", PKG, n + ".h"), header(n, body, deps)); pm.append(py_class(n, fc, PKG + "/" + n))
for f in srvs:
    n = os.path.basename(f)[:-4]; a, b = re.split(r"^---\s*$", open(f).read(), maxsplit=1, flags=re.M); deps = set()
    rq, rs = parse(a), parse(b)
    body = cpp_struct(n + "Request", rq, deps) + "\n" + cpp_struct(n + "Response", rs, deps) + \
        "\nstruct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };" % (n, n, n)
    write(os.path.join(out, "cpp", PKG, n + ".h"), header(n, body, deps))
    for x in ("Request", "Response"): write(os.path.join(out, "cpp", PKG, n + x + ".h"), "#pragma once\n#include <%s/%s.h>\n" % (PKG, n))
    ps.append(py_class(n + "Request", rq, PKG + "/" + n + "Request")); ps.append(py_class(n + "Response", rs, PKG + "/" + n + "Response"))
    ps.append("class %s(object):\n    _type = %r\n    _request_class = %sRequest\n    _response_class = %sResponse\n" % (n, PKG + "/" + n, n, n))
BASE = '''class _Message(object):
    def __init__(self, *args, **kw):
        d = self._defaults()
        if args and kw: raise TypeError("Message constructor may only use args OR keywords, not both")
        if args:
            if len(args) != len(self.__slots__): raise TypeError("Invalid number of arguments, args should be %s args are %s" % (self.__slots__, args))
            d = dict(zip(self.__slots__, args))
        for k, v in kw.items():
            if k not in d: raise AttributeError("%s is not an attribute of %s" % (k, self.__class__.__name__))
            d[k] = v
        for k in self.__slots__: setattr(self, k, d[k])
    def __eq__(self, o): return type(self) is type(o) and all(getattr(self, k) == getattr(o, k) for k in self.__slots__)
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % (k, getattr(self, k)) for k in self.__slots__))
'''
pd = os.path.join(out, "py", PKG)
write(os.path.join(pd, "msg", "__init__.py"), BASE + "\n".join(pm))
write(os.path.join(pd, "srv", "__init__.py"), "from controller_manager_msgs.msg import *\nfrom controller_manager_msgs.msg import _Message\n" + "\n".join(ps))
# the package itself resolves to /repo's sources plus the generated msg/srv sub-packages
write(os.path.join(pd, "__init__.py"), "import os\n__path__.append(%r)\n" % os.path.join(repo, PKG, "src", PKG))
names = {}
for f in sorted(glob.glob(os.path.join(repo, "*", "*.xml"))):
    if os.path.basename(f) == "package.xml": continue
    try: root = ET.parse(f).getroot()
    except ET.ParseError: continue
    for c in root.iter("class"):
        if c.get("type") and c.get("name"): names[c.get("type")] = c.get("name")
write(os.path.join(out, "cpp", "stub_plugin_names.h"), "#pragma once\n#include <map>\n#include <string>\ninline const std::map<std::string, std::string>& stubPluginNames() { static const std::map<std::string, std::string> m = {\n" +
      "".join('  {"%s", "%s"},\n' % kv for kv in sorted(names.items())) + "}; return m; }\n")
