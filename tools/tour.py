#!/usr/bin/env python3
"""tour.py CONFIG [OUT]: turns the state graph of ContractMC under spec/MC_<CONFIG>.cfg into
command scripts that together take every transition of the graph (tours/<CONFIG>.gz).

TLC prints each transition (EXPORT=1); walks from the initial state are chosen greedily so
that every edge is taken at least once.  A hand-over to a waiting future is an edge per
waiter, of which the code takes one; edges that name a waiter other than the one registered
last are left out (the trace specification accepts any, so this only limits coverage).
"""
import ast, collections, gzip, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALK = 120
def main():
    name = sys.argv[1]
    out = sys.argv[2] if len(sys.argv) > 2 else os.path.join(VERIF, "tours", name + ".gz")
    cfgtext = open(os.path.join(VERIF, "spec", "MC_%s.cfg" % name)).read()
    c = dict(re.findall(r"(\w+) (?:=|<-) (.*)", cfgtext))
    nk, cap, thot, gcap = (int(c[x]) for x in ("NK", "Cap", "Thot", "Gcap"))
    api = 1 if "sync" == c["Api"].strip('"') else 0
    meta = "/tmp/tourmeta.%d" % os.getpid()
    p = subprocess.Popen(["tlc", "-workers", "1", "-config", "MC_%s.cfg" % name, "-metadir", meta, "-noGenerateSpecTE",
                          "ContractMC.tla"], cwd=os.path.join(VERIF, "spec"), env=dict(os.environ, EXPORT="1"),
                         stdout=subprocess.PIPE, text=True)
    ids, adj, edges, init = {}, collections.defaultdict(list), [], None
    seen = set()
    for l in p.stdout:
        if not l.startswith('"T '):
            continue
        t = ast.literal_eval("[" + l.strip()[3:-1].replace('\\"', '"').replace("<<", "[").replace(">>", "]") + "]")[0]
        a = ids.setdefault((t[0], t[1]), len(ids))
        b = ids.setdefault((t[3], t[4]), len(ids))
        if init is None:
            init = a
        key = (a, repr(t[2]), b)
        if key in seen:
            continue
        seen.add(key)
        adj[a].append(len(edges))
        edges.append((a, t[2], b))
    p.wait()
    subprocess.run(["rm", "-rf", meta])
    E = len(edges)
    multi = set()   # hand-over edges with several possible takers
    for a, es in adj.items():
        cnt = collections.Counter((edges[e][1][0], edges[e][1][6]) for e in es if edges[e][1][0] == "gdr")
        for e in es:
            m = edges[e][1]
            if m[0] == "gdr" and cnt[(m[0], m[6])] > 1:
                multi.add(e)
    todo = [set(adj[a]) for a in range(len(ids))]
    for a in range(len(ids)):
        todo[a].sort() if False else None
    left = sum(len(x) for x in todo)
    lines, ncmd, nwalk, blocked = [], 0, 0, 0
    hmode = 0
    # distances from the initial state, to give far states long walks
    while left > 0:
        nwalk += 1
        hm = (0, 3, 1, 2)[nwalk % 4]
        lines.append("new %d %d %d 1 %s 1 %d %d %d 1" % (api, nk, cap, (thot + 0.5) / cap if thot < cap else 1.0, gcap, hm, nwalk % 2))
        cur, steps, took = init, 0, 0
        nid, ng, gmap, reg = 1, 1, {}, []
        def emit(e):
            nonlocal cur, steps, nid, ng, ncmd
            a, m, b = edges[e]
            o, k, f, v, u, ks, g, x = m
            if v != [0, 0, 0, 0] or o in ("ins", "rep", "gin", "goi", "gmi", "ga", "gui", "gum"):
                v = [nid] + v[1:]
                nid += 1
            if u:
                u = [nid] + u[1:]
                nid += 1
            if o in ("jn", "wt"):
                gmap[g] = ng
                ng += 1
                reg.append(g)
            rg = gmap.get(g, 0) if g else 0
            j = lambda xs: ",".join(map(str, xs)) if xs else "-"
            lines.append("%s %d %d %d %s %s %s %d" % (o, k, f, steps % 2, j(v), j(u), j(ks), rg))
            cur = b
            steps += 1
            ncmd += 1
        def ok(e):
            if e not in multi:
                return True
            m = edges[e][1]
            others = [edges[i][1][7][0] for i in adj[cur] if edges[i][1][0] == "gdr" and edges[i][1][6] == m[6]]
            # registered last among the possible takers
            return max(others, key=lambda f: len(reg) - 1 - reg[::-1].index(f)) == m[7][0]
        stuck = 0
        while steps < WALK and left > 0:
            pick = None
            for e in list(todo[cur]):
                if ok(e):
                    # edges that stay come first
                    if pick is None or edges[e][2] == cur:
                        pick = e
                        if edges[e][2] == cur:
                            break
            if pick is not None:
                todo[cur].discard(pick)
                left -= 1
                took += 1
                emit(pick)
                continue
            # nearest state with work left
            prev, q, goal = {cur: None}, collections.deque([cur]), None
            while q:
                a = q.popleft()
                if a != cur and any(e not in multi for e in todo[a]):
                    goal = a
                    break
                for e in adj[a]:
                    b = edges[e][2]
                    if b not in prev and e not in multi:
                        prev[b] = e
                        q.append(b)
            if goal is None:
                break
            path = []
            while prev[goal] is not None:
                path.append(prev[goal])
                goal = edges[prev[goal]][0]
            for e in reversed(path):
                if e in todo[cur]:
                    todo[cur].discard(e)
                    left -= 1
                    took += 1
                emit(e)
        if took == 0:
            blocked = left
            break
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out, "wb") as raw, gzip.GzipFile(filename="", mode="wb", fileobj=raw, mtime=0) as z:
        z.write(("\n".join(lines) + "\n").encode())
    print("%s: %d states, %d transitions, %d taken, %d walks, %d commands" % (name, len(ids), E, E - blocked, nwalk, ncmd))
main()
