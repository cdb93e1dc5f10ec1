"""C10 editing the layer stack: model-based histories."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C10"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 4}}}
ASSUMPTIONS = ["histories of up to 14 edits; merging snow into ice is exercised on dry layers over pure ice"]


def searches(variant):
    c = common.consts()

    def oracle(case, rec):
        g = common.make_grid(case["col"], case["fresh"])
        m = common.state(g)
        fresh = [float(x) for x in case["fresh"]]
        used = set()
        try:
            for op, k, a, b in case["ops"]:
                n = len(m)
                k %= n
                total_w, total_i, total_h = common.water(m), common.ice(m), common.depth(m)
                heat = sum(x[0] * x[1] for x in m)
                cons = False
                if op == "snow":
                    h = 0.5 * a if a > 0.3 else 0.003 * a
                    rho, t, w = 60 + 400 * b, 240 + 33 * a, 0.02 * b if a < 0.5 else 0.0
                    g.add_fresh_snow(h, rho, t, w, 3600)
                    m.insert(0, [h, t, w, ref.icf_from_density(rho, c)])
                    if h < c["minimum_snowfall"]:
                        fresh = [fresh[0], fresh[1] + 3600, fresh[2] + 3600]
                    else:
                        fresh = [h, 0.0, fresh[1]]
                elif op == "remove" and n > 1:
                    g.remove_node([k])
                    del m[k]
                elif op == "remove-top" and n > 1:
                    g.remove_node()
                    del m[0]
                elif op == "remove-some" and n > 2:
                    idx = sorted({k, (k + 1) % n, int(a * (n - 1))})[: n - 1]
                    if b > 0.5:
                        idx = idx[::-1]
                    g.remove_node(idx)
                    m = [x for j, x in enumerate(m) if j not in idx]
                elif op == "merge" and n > 1:
                    k = k % (n - 1)
                    g.merge_nodes(k)
                    ref.merge(m, k)
                    cons = True
                elif op == "split":
                    g.split_node(k)
                    m[k][0] /= 2
                    m.insert(k + 1, list(m[k]))
                    cons = True
                elif op == "correct":
                    hmin = 0.005 + 0.3 * a
                    g.correct_layer(k, hmin)
                    ref.correct(m, k, hmin, c)
                    cons = True
                elif op == "update":
                    x = [0.01 + a, 230 + 40 * b, 0.1 * a, 0.1 + 0.8 * b]
                    g.update_node(k, *[x[0], x[1], x[3], x[2]])
                    m[k] = x
                elif op == "snow-to-ice" and n > 1:
                    j = next((j for j in range(n - 1) if ref.is_snow(m[j], c) and m[j][2] == 0.0
                              and m[j + 1][3] == 1.0 and m[j + 1][2] == 0.0), None)
                    if j is None:
                        continue
                    add = m[j][0] * common.density(m[j], c) / c["ice_density"]
                    g.merge_snow_with_glacier(j)
                    m[j + 1][0] += add
                    del m[j]
                elif op == "melt":
                    mass = sum(x[0] * common.density(x, c) for x in m) / c["water_density"]
                    amount = 0.6 * mass * a if b > 0.5 else 0.01 * a
                    if amount >= 0.95 * mass:
                        continue
                    g.remove_melt_weq(amount)
                    m, _, lost, left = ref.remove_melt(m, amount, c)
                    fresh[0] -= lost
                elif op == "age":
                    g.set_fresh_snow_props_update_time(3600 * k)
                    fresh = [fresh[0], fresh[1] + 3600 * k, fresh[2] + 3600 * k]
                elif op == "old":
                    g.set_fresh_snow_props_to_old_props()
                    fresh = [fresh[0], fresh[2], fresh[2]]
                else:
                    continue
                used.add(op)
                s = common.state(g)
                expect(g.get_number_layers() == len(s) == len(m), f"layer-count:{op}",
                       lambda: f"{g.get_number_layers()} counted, {len(s)} read, {len(m)} expected")
                if cons:
                    for what, x, y in (("water", total_w, common.water(s)), ("ice", total_i, common.ice(s)),
                                       ("depth", total_h, common.depth(s)), ("heat", heat, sum(x[0] * x[1] for x in s))):
                        expect(common.close(x, y, 1e-9, 1e-12), f"not-conserved:{op}:{what}", f"{x!r} -> {y!r}")
                d = common.same_state(s, m, 1e-9)
                expect(d is None, f"model:{op}", d)
                fp = [float(x) for x in g.get_fresh_snow_props()]
                expect(all(common.close(x, y, 1e-9, 1e-9) for x, y in zip(fp, fresh)), f"fresh-props:{op}", f"{fp} expected {fresh}")
                m = s
        except ref.Ambiguous:
            rec.hit("cut short")
        for o in used:
            rec.hit(o)
        rec.nontrivial(len(used) >= 4)

    ops = ["snow", "snow", "remove", "remove-top", "remove-some", "merge", "merge", "split", "correct", "correct", "update",
           "snow-to-ice", "melt", "age", "old"]
    case = st.fixed_dictionaries({
        "col": common.columns(1, 7, hlo=0.005, hhi=0.8), "fresh": common.fresh_props().map(list),
        "ops": st.lists(st.tuples(st.sampled_from(ops), st.integers(0, 11), common.fl(0, 1), common.fl(0, 1)).map(list),
                        min_size=1, max_size=14)})
    return [Search("history", case, oracle, "at least 4 different kinds of edit applied", quick=1200, thorough=40000)]
