#!/usr/bin/env python3
"""Writes the TLC configurations of ContractMC (spec/MC_*.cfg)."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
def cfg(name, head="SPECIFICATION Spec\nINVARIANT Inv\n", **k):
    with open(os.path.join(D, "MC_%s.cfg" % name), "w") as f:
        f.write(head + "CHECK_DEADLOCK FALSE\nCONSTANTS\n")
        for a, b in k.items():
            if a == "Ops":
                b = "{" + ", ".join('"%s"' % o for o in b.split()) + "}"
            f.write("  %s %s %s\n" % (a, "<-" if a.startswith("Shapes") else "=", b))
ALLU = "get ins rep rem ret clr drn gmu pmu goi gmi gui gum lc"
U, S = '"unsync"', '"sync"'
# quick
cfg("q_plain", NK=2, Cap=3, Thot=2, Gcap=1, Shapes="Plain", Shapes2="Zero", Api=U, Ops=ALLU, MaxG=0, MaxSum=4)
cfg("q_pins", NK=3, Cap=2, Thot=1, Gcap=1, Shapes="PinnedBig", Shapes2="Unit", Api=U, Ops="get ins rem pin", MaxG=0, MaxSum=4)
cfg("q_shrink", NK=3, Cap=2, Thot=2, Gcap=0, Shapes="Shrink", Shapes2="Unit", Api=U, Ops="get ins rep rem goi", MaxG=0, MaxSum=4)
cfg("q_guard", NK=2, Cap=2, Thot=1, Gcap=1, Shapes="Two", Shapes2="Unit", Api=S, Ops="get ins rep rem clr jn wt goi", MaxG=3, MaxSum=4)
cfg("q_policy", NK=4, Cap=3, Thot=2, Gcap=2, Shapes="Unit", Shapes2="Unit", Api=U, Ops="get ins rem goi", MaxG=0, MaxSum=4)
# thorough
cfg("t_plain", NK=3, Cap=3, Thot=2, Gcap=1, Shapes="Plain", Shapes2="Zero", Api=U, Ops=ALLU, MaxG=0, MaxSum=5)
cfg("t_pins", NK=3, Cap=3, Thot=2, Gcap=1, Shapes="Pinned", Shapes2="PinnedBig", Api=U, Ops="get ins rep rem goi pin pmu", MaxG=0, MaxSum=5)
cfg("t_mixed", NK=3, Cap=3, Thot=2, Gcap=1, Shapes="Mixed", Shapes2="Zero", Api=U, Ops="get ins rep rem gmu", MaxG=0, MaxSum=4)
cfg("t_shrink", NK=3, Cap=3, Thot=2, Gcap=1, Shapes="Shrink", Shapes2="Grow", Api=U, Ops="get ins rem gmu", MaxG=0, MaxSum=4)
cfg("t_guard", NK=2, Cap=2, Thot=1, Gcap=1, Shapes="Two", Shapes2="Unit", Api=S, Ops="get ins rep rem clr jn wt goi lc", MaxG=4, MaxSum=4)
cfg("t_policy", NK=5, Cap=3, Thot=2, Gcap=2, Shapes="Unit", Shapes2="Unit", Api=U, Ops="get ins rem", MaxG=0, MaxSum=4)
# small enough for a tour of the whole state graph through the real code (tours/)
cfg("x_pins", NK=3, Cap=2, Thot=1, Gcap=1, Shapes="PinnedBig", Shapes2="Unit", Api=U, Ops="get ins rep rem goi", MaxG=0, MaxSum=4)
cfg("x_shrink", NK=2, Cap=3, Thot=2, Gcap=1, Shapes="Shrink", Shapes2="Grow", Api=U, Ops="get ins rep rem goi pmu", MaxG=0, MaxSum=5)
cfg("x_zero", NK=3, Cap=2, Thot=1, Gcap=1, Shapes="Zero", Shapes2="Zero", Api=U, Ops="get ins rep rem goi pmu", MaxG=0, MaxSum=4)
cfg("x_guard", NK=2, Cap=2, Thot=1, Gcap=1, Shapes="Unit", Shapes2="Unit", Api=S, Ops="get ins rem clr jn wt", MaxG=3, MaxSum=4)

TW = "SPECIFICATION TSpec\nINVARIANTS Inv InStep Soft\n"
cfg("twin_q", TW, NK=2, Cap=2, Thot=1, Gcap=1, Shapes="Mixed", Shapes2="Unit", Api=U, Ops="get ins rep rem goi pmu", MaxG=0, MaxSum=3, Lag=1)
cfg("twin_t", TW, NK=3, Cap=2, Thot=1, Gcap=1, Shapes="Mixed", Shapes2="Zero", Api=U, Ops="get ins rep rem goi pmu gui", MaxG=0, MaxSum=4, Lag=1)
cfg("twin_lag", TW, NK=2, Cap=2, Thot=1, Gcap=1, Shapes="Mixed", Shapes2="Unit", Api=U, Ops="get ins rep rem goi", MaxG=0, MaxSum=3, Lag=2)
