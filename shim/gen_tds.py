#!/usr/bin/env python3
"""Generate stand-ins for include/mods/Indexed_Triangulation_data_structure_{2,3}.h.

The headers in the repository are copies of the CGAL 4.x triangulation data structures in which
every face/cell is constructed with the data structure's index handler; they do not compile with
the installed CGAL 5.6.  This applies the same modification to the installed CGAL headers.
usage: gen_tds.py OUTDIR   (writes OUTDIR/mods/Indexed_Triangulation_data_structure_{2,3}.h)
"""
import os, re, sys
out = os.path.join(sys.argv[1], "mods")
os.makedirs(out, exist_ok=True)
PRE = '#include <memory>\n#include "utils/IndexHandler.h"\n'


def add_handler(src, cont):
    # append the index handler to every <cont>().emplace( ... )
    res, pos = "", 0
    pat = re.compile(r"%s\(\)\.emplace\(" % cont)
    while True:
        m = pat.search(src, pos)
        if not m:
            return res + src[pos:]
        depth, i = 1, m.end()
        while depth:
            depth += {"(": 1, ")": -1}.get(src[i], 0)
            i += 1
        args = src[m.end():i - 1].strip()
        res += src[pos:m.end()] + (args + ", " if args else "") + "*_ih)"
        pos = i


def write(name, s):
    p = os.path.join(out, name)
    if os.path.exists(p) and open(p).read() == s:
        return
    tmp = p + ".%d" % os.getpid()
    open(tmp, "w").write(s)
    os.replace(tmp, p)


# ---- 2
s = open("/usr/include/CGAL/Triangulation_data_structure_2.h").read()
s = s.replace("CGAL_TRIANGULATION_DATA_STRUCTURE_2_H", "VERIF_INDEXED_TDS_2_H")
a, b = s.index("//for backward compatibility"), s.rindex("//for backward compatibility")
e = s.index("template", s.index("Triangulation_data_structure_using_list_2(): Tds() {}"))
s = s[:a] + s[e:]
s = re.sub(r"\bTriangulation_data_structure_2\b", "Indexed_Triangulation_data_structure_2", s)
s = s.replace("https://github.com/CGAL/cgal/blob/v5.6/TDS_2/include/CGAL/Indexed_", "")
s = re.sub(r"template\s*<\s*class Vb\s*,\s*class Fb\s*>", "template <class Vb, class Fb, class Ih>", s)
s = re.sub(r"(Indexed_Triangulation_data_structure_2)<\s*(\w+)\s*,\s*(\w+)\s*>", r"\1<\2,\3,Ih>", s)
s = re.sub(r"(class Fb = Triangulation_ds_face_base_2<>\s*)>", r"\1, class Ih = _detail::IndexHandler >", s)
s = add_handler(s, "faces")
s = s.replace("protected:\n  int _dimension;", "public:\n  auto maxId() const { return _ih->maxId(); }\n"
  "  void disableId() { _ih->disable(); }\nprotected:\n"
  "  std::shared_ptr<Ih> _ih = std::make_shared<Ih>();\n  int _dimension;", 1)
s = s.replace("  : _dimension(std::exchange(tds._dimension, -2))", "  : _ih(tds._ih), _dimension(std::exchange(tds._dimension, -2))", 1)
s = s.replace("  _dimension = std::exchange(tds._dimension, -2);", "  _ih = tds._ih;\n  _dimension = std::exchange(tds._dimension, -2);", 1)
s = s.replace("std::swap(_dimension, tds._dimension);", "std::swap(_dimension, tds._dimension); std::swap(_ih, tds._ih);", 1)
s = re.sub(r"\bDefault_(vertex|face|cell)_converter\b", r"VDefault_\1_converter", s)
write("Indexed_Triangulation_data_structure_2.h", "#pragma once\n" + PRE + s)

# ---- 3
s = open("/usr/include/CGAL/Triangulation_data_structure_3.h").read()
s = s.replace("CGAL_TRIANGULATION_DATA_STRUCTURE_3_H", "VERIF_INDEXED_TDS_3_H")
s = re.sub(r"\bTriangulation_data_structure_3\b", "Indexed_Triangulation_data_structure_3", s)
s = re.sub(r"template <class Vb, class Cb, class Ct>", "template <class Vb, class Cb, class Ct, class Ih>", s)
s = re.sub(r"(Indexed_Triangulation_data_structure_3)<\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*>", r"\1<\2,\3,\4,Ih>", s)
s = s.replace("class Concurrency_tag_ = Sequential_tag\n>", "class Concurrency_tag_ = Sequential_tag,\n           class Ih = _detail::IndexHandler\n>", 1)
s = add_handler(s, "cells")
s = s.replace("  int _dimension;\n\n  Cell_range   _cells;", "  std::shared_ptr<Ih> _ih = std::make_shared<Ih>();\n  int _dimension;\n\n  Cell_range   _cells;", 1)
s = s.replace("public:\n  Indexed_Triangulation_data_structure_3()", "public:\n  auto maxId() const { return _ih->maxId(); }\n"
  "  void disableId() { _ih->disable(); }\n  Indexed_Triangulation_data_structure_3()", 1)
s = s.replace("    : _dimension(std::exchange(tds._dimension, -2))", "    : _ih(tds._ih), _dimension(std::exchange(tds._dimension, -2))", 1)
s = s.replace("    _dimension = std::exchange(tds._dimension, -2);", "    _ih = tds._ih;\n    _dimension = std::exchange(tds._dimension, -2);", 1)
s = s.replace("std::swap(_dimension, tds._dimension);", "std::swap(_dimension, tds._dimension); std::swap(_ih, tds._ih);", 1)
s = re.sub(r"\bDefault_(vertex|face|cell)_converter\b", r"VDefault_\1_converter", s)
write("Indexed_Triangulation_data_structure_3.h", "#pragma once\n" + PRE + s)
