"""C06: multivariable transformers and bases act block by block."""
import copy

import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged
from checks import gen_basis as B
from checks import gen_pre as P

CHECK = Check("C06", assumptions=[
    "component objects used on their own are the oracle for the joined object",
    "variable names are distinct",
])


def blocks(sizes, X):
    out, i = [], 0
    for ni in sizes:
        out.append(X[i:i + ni].copy())
        i += ni
    return out


def accessors(g, obj, sizes, names, Y, msg):
    """split / get_var of the stacked array Y."""
    bl = blocks(sizes, Y)
    with unchanged(Y):
        parts = obj.split(Y)
        check(len(parts) == len(sizes), f"{msg}: number of blocks")
        for i, (a, b) in enumerate(zip(parts, bl)):
            same(a, b, f"{msg}: split block {i}")
            same(obj.get_var(i, Y), b, f"{msg}: get_var({i})")
            same(obj.get_var(names[i], Y), b, f"{msg}: get_var({names[i]!r})")
            same(obj.get_var(i - len(bl), Y), b, f"{msg}: get_var({i - len(bl)})")
            check(obj[i - len(bl)] is obj[i], f"{msg}: [{i - len(bl)}]")
        same(np.concatenate(parts), Y, f"{msg}: restacking")


@CHECK.sub(quick=2500, rule="at least two variables with different components")
def transformers(g):
    nv = g.int(1, 4, "nvars")
    equal = g.bool("equal")
    sizes = [g.int(1, 6, "nx")] * nv if equal else [g.int(1, 6, "nx") for _ in range(nv)]
    lf = P.multi_of(g, sizes)
    multi, twins = lf.tf, lf.twins
    n, k = sum(sizes), g.dim(2, 6, "k", 20)
    check(multi.num_variables == nv == len(multi), "num_variables")
    names = list(multi.variable_names)
    for i in range(nv):
        want = getattr(twins[i], "name", None)
        check(names[i] == (want if want is not None else f"variable {i}")
              or (twins[i] is None), f"variable name {i}: {names[i]!r}")
        check(multi[i] is multi.transformers[i] and multi[names[i]] is multi[i], "indexing")

    def each(method, X, *args, **kw):
        out = []
        for tw, Q in zip(twins, blocks(sizes, X)):
            if tw is None:
                out.append(Q)
            else:
                out.append(getattr(tw, method)(Q, *args, **kw))
        return np.concatenate(out)

    for it in range(g.choice([1, 1, 2], "nfits")):
        X = P.multi_data(g, sizes, k)
        if not P.degenerate_free(lf, X):
            return
        how = g.choice(["fit", "fit_transform", "inplace"], "how")
        expect = each("fit_transform", X)
        if how == "fit":
            with unchanged(X):
                check(multi.fit(X) is multi, "fit() returns self")
        elif how == "fit_transform":
            with unchanged(X):
                close(multi.fit_transform(X), expect, "fit_transform", rtol=1e-13)
        else:
            Y = X.copy()
            out = multi.fit_transform(Y, inplace=True)
            check(out is Y, "in-place fit_transform returns its argument")
            close(Y, expect, "in-place fit_transform", rtol=1e-13)
        check(tuple(multi.variable_sizes) == tuple(sizes), f"variable_sizes {multi.variable_sizes}")
        check(multi.state_dimension == n, "state_dimension")
    m = g.int(1, 4, "m")
    Z = P.multi_data(g, sizes, m, "Z") if m > 1 else g.normal((n, 1), "Z1")
    if g.bool("single"):
        Z = Z[:, 0].copy()
    T = each("transform", Z)
    with unchanged(Z):
        close(multi.transform(Z), T, "transform", rtol=1e-13)
        W = multi.inverse_transform(Z)
        close(W, each("inverse_transform", Z), "inverse_transform", rtol=1e-13)
        D = multi.transform_ddts(Z)
        check(D is not NotImplemented, "transform_ddts implemented")
        close(D, each("transform_ddts", Z), "transform_ddts", rtol=1e-13)
        for meth, ref in (("transform", T), ("inverse_transform", W), ("transform_ddts", D)):
            Y = Z.copy()
            out = getattr(multi, meth)(Y, inplace=True)
            check(out is Y, f"in-place {meth} returns its argument")
            close(Y, ref, f"in-place {meth}", rtol=1e-13)
    accessors(g, multi, sizes, names, Z, "transformer")
    if len(set(sizes)) == 1:
        locs = P.draw_locs(g, sizes[0])
        TL = np.concatenate([b[locs] for b in blocks(sizes, Z)])
        expect = np.concatenate([
            b[locs] if tw is None else tw.inverse_transform(b[locs], locs=locs)
            for tw, b in zip(twins, blocks(sizes, Z))])
        with unchanged(TL):
            close(multi.inverse_transform(TL, locs=locs), expect, "inverse at locations",
                  rtol=1e-13)
        close(expect, np.concatenate([b[locs] for b in blocks(sizes, W)]),
              "inverse at locations = entries of the full inverse", rtol=1e-10)
    str(multi)
    g.tag(f"nv={nv}", "equal" if equal else "unequal", how)
    g.nontrivial(nv > 1 and len({x.desc for x in lf.leaves}) > 1)


@CHECK.sub(quick=2000, rule="at least two variables")
def bases(g):
    nv = g.int(1, 4, "nvars")
    equal = g.bool("equal")
    sizes = [g.int(1, 7, "nx")] * nv if equal else [g.int(1, 7, "nx") for _ in range(nv)]
    k = g.int(8, 10, "k")
    comps, kinds = [], []
    for i, ni in enumerate(sizes):
        name = g.choice([None, f"v{i}"], "name")
        if g.bool("pod"):
            w, W, wkind = B.weights(g, ni)
            comps.append(opinf.basis.PODBasis(
                num_vectors=g.int(1, ni, "r"), weights=w, name=name,
                svdsolver=g.choice(["dense", "method-of-snapshots"], "solver")))
            kinds.append("pod")
        else:
            b, V, W, wkind = B.linear_basis(g, ni, g.int(1, ni, "r"), name=name)
            comps.append(b)
            kinds.append("linear")
    twins = [copy.deepcopy(b) for b in comps]
    known = all(kd == "linear" for kd in kinds)
    give = g.bool("give") if (equal or known) else True
    multi = opinf.basis.BasisMulti(g.choice([list, tuple], "seq")(comps),
                                   full_variable_sizes=list(sizes) if give else None)
    n = sum(sizes)
    check(multi.num_variables == nv == len(multi), "num_variables")
    names = list(multi.variable_names)
    check(names == [t.name if t.name is not None else f"variable {i}"
                    for i, t in enumerate(twins)], f"names {names}")

    def data(label):
        return np.concatenate([B.snapshots(g, ni, k, label=label)[0] for ni in sizes])

    for step in range(g.int(1, 5, "steps")):
        op = "fit" if step == 0 else g.choice(["fit", "dim"], "op")
        if op == "fit":
            X = data("X")
            for t, Q in zip(twins, blocks(sizes, X)):
                t.fit(Q)
            with unchanged(X):
                if g.bool("fc") and hasattr(multi, "fit_compress"):
                    close(multi.fit_compress(X), np.concatenate(
                        [t.compress(Q) for t, Q in zip(twins, blocks(sizes, X))]),
                        "fit_compress", rtol=1e-12)
                else:
                    check(multi.fit(X) is multi, "fit() returns self")
        else:
            pods = [i for i in range(nv) if kinds[i] == "pod"]
            new = {}
            if len(pods) > 1 and g.bool("exchange"):    # keep the total dimension
                i, j = (pods[x] for x in g.perm(len(pods), "pair")[:2])
                ri, rj = (twins[x].reduced_state_dimension for x in (i, j))
                if rj <= sizes[i] and ri <= sizes[j]:
                    new = {i: rj, j: ri}
                    g.tag("exchange")
            elif pods:
                i = g.choice(pods, "which")
                new = {i: g.int(1, sizes[i], "newr")}
            for i, r in new.items():
                twins[i].set_dimension(num_vectors=r)
                multi[names[i]].set_dimension(num_vectors=r)
        rs = [t.reduced_state_dimension for t in twins]
        r = sum(rs)
        check(tuple(multi.full_variable_sizes) == tuple(sizes), "full_variable_sizes")
        check(tuple(multi.reduced_variable_sizes) == tuple(rs), "reduced_variable_sizes")
        check(multi.full_state_dimension == n and multi.reduced_state_dimension == r
              and multi.shape == (n, r), "joint dimensions are sums")
        m = g.int(1, 4, "m")
        Q = g.array((n, m), "Q")
        Z = g.array((r, m), "Z")
        if g.bool("single"):
            Q, Z = Q[:, 0].copy(), Z[:, 0].copy()
        qb, zb = blocks(sizes, Q), blocks(rs, Z)
        with unchanged(Q, Z):
            close(multi.compress(Q), np.concatenate([t.compress(b) for t, b in zip(twins, qb)]),
                  "compress", rtol=1e-12)
            D = np.concatenate([t.decompress(b) for t, b in zip(twins, zb)])
            close(multi.decompress(Z), D, "decompress", rtol=1e-12)
            Pj = np.concatenate([t.project(b) for t, b in zip(twins, qb)])
            close(multi.project(Q), Pj, "project", rtol=1e-11, scale=np.abs(Q).max())
            e, nq = np.linalg.norm(Q - Pj), np.linalg.norm(Q)
            close(multi.projection_error(Q, relative=False), e, "absolute projection error",
                  rtol=1e-8, scale=nq)
            if nq > 0:
                close(multi.projection_error(Q), e / nq, "relative projection error",
                      rtol=1e-8, scale=1)
            if len(set(sizes)) == 1:
                locs = P.draw_locs(g, sizes[0])
                close(multi.decompress(Z, locs=locs),
                      np.concatenate([b[locs] for b in blocks(sizes, D)]),
                      "decompress at locations", rtol=1e-12, scale=np.abs(D).max())
        accessors(g, multi, sizes, names, Q, "full state")
        if r != n or rs == list(sizes):
            accessors(g, multi, rs, names, Z, "reduced state")
        str(multi)
    g.tag(f"nv={nv}", "equal" if equal else "unequal", "+".join(sorted(set(kinds))))
    g.nontrivial(nv > 1)
