"""McIlroy's adversary against a median-of-three quicksort"""
import functools
def killer(n, small=16):
    """a permutation of 0..n-1 on which a median-of-three quicksort (middle element as pivot) makes only skewed partitions"""
    gas = n - 1
    val = [gas] * n
    st = {"solid": 0, "cand": -1}
    def lt(x, y):
        if val[x] == gas and val[y] == gas:
            if x == st["cand"]: val[x] = st["solid"]
            else: val[y] = st["solid"]
            st["solid"] += 1
        if val[x] == gas: st["cand"] = x
        elif val[y] == gas: st["cand"] = y
        return val[x] < val[y]
    a = list(range(n))
    stack = []; pl, pr = 0, n - 1
    while True:
        while pr - pl > small:
            pm = pl + ((pr - pl) >> 1)
            if lt(a[pm], a[pl]): a[pm], a[pl] = a[pl], a[pm]
            if lt(a[pr], a[pm]): a[pm], a[pr] = a[pr], a[pm]
            if lt(a[pm], a[pl]): a[pm], a[pl] = a[pl], a[pm]
            vp = a[pm]; pi = pl; pj = pr - 1
            a[pm], a[pj] = a[pj], a[pm]
            while True:
                pi += 1
                while lt(a[pi], vp): pi += 1
                pj -= 1
                while lt(vp, a[pj]): pj -= 1
                if pi >= pj: break
                a[pi], a[pj] = a[pj], a[pi]
            a[pi], a[pr - 1] = a[pr - 1], a[pi]
            if pi - pl < pr - pi:
                stack.append((pi + 1, pr)); pr = pi - 1
            else:
                stack.append((pl, pi - 1)); pl = pi + 1
        if not stack: break
        pl, pr = stack.pop()
    r = [0] * n
    for k, i in enumerate(sorted(range(n), key=lambda i: val[i])): r[i] = k
    return r
if __name__ == "__main__":
    print(killer(60))
