// Write pool compared with a document.
#pragma once
#include "tree.h"
struct BW : BW_plugin { using BW_plugin::BW_plugin; };
inline bool same_bw(BW &W, BW_element *e, const Doc &d) {
    if (d.name != e->getName()) TBAD("element is named %s, expected %s", e->getName(), d.name.c_str());
    auto val = [&](BW_element *x, const S &want) { XML_Binary_Type t = (XML_Binary_Type)x->value_type; const char *g = t == XBT_NULL ? "" : XBT_ToString(t, (char *)(x + 1)); S got = g ? g : ""; if (!same_text(got, want, t) || got.empty() != want.empty()) TBAD("%s is %s, expected %s", x->getName(), shrt(got).c_str(), shrt(want).c_str()); return true; };
    if (!(e->flags & BIN_WRITE_ELEMENT_FLAG) || !val(e, d.val)) return false;
    size_t i = 0; if (e->first_attribute) { BW_element *f = W.BWE(e->first_attribute), *a = f; do { if (i >= d.at.size() || d.at[i].first != a->getName()) TBAD("attribute %zu of %s is %s", i, d.name.c_str(), a->getName()); if (!val(a, d.at[i].second)) return false; i++; a = W.BWE(a->next); } while (a != f); }
    if (i != d.at.size()) TBAD("element %s has %zu attributes, expected %zu", d.name.c_str(), i, d.at.size());
    i = 0; { BW_FOREACH2(e, x) { if (i >= d.ch.size()) TBAD("element %s has more than %zu children", d.name.c_str(), i); if (!same_bw(W, x, d.ch[i++])) return false; } }
    if (i != d.ch.size()) TBAD("element %s has %zu children, expected %zu", d.name.c_str(), i, d.ch.size()); return true;
}
