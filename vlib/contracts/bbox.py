"""Bounding boxes (C06)."""
from basic import CT, DEFS, LEMMAS
import ring as RG

AXES = "forall|q: int| 0 <= q < {n} ==> box_ok({cv}, q, (#[trigger] {b}@[q]).0.val(), {b}@[q].1.val())"


def L_pl(ring):
    return (RG.spec_lemma(ring, DEFS, "quad_poly", ["a", "b", "c", "t"], "quad(a,b,c,t)", "a + 2.0*(b-a)*t + (a-2.0*b+c)*(t*t)")
            + RG.spec_lemma(ring, DEFS, "cub_poly", ["a", "b", "c", "d", "t"], "cub(a,b,c,d,t)", "a + 3.0*(b-a)*t + 3.0*(a-2.0*b+c)*(t*t) + (d-3.0*c+3.0*b-a)*(t*(t*t))")
            + """
pub proof fn quad_pl(cv: Cv, i: int, a: real, b: real, c: real, ga: real, be: real)
    requires forall|t: real| #[trigger] cv(i, t) == quad(a, b, c, t), ga == 2real * (b - a), be == 2real * (a - 2real * b + c),
    ensures forall|t: real| #[trigger] cv(i, t) == pl(a, ga, be, 0real, t),
{
    assert forall|t: real| #[trigger] cv(i, t) == pl(a, ga, be, 0real, t) by {
        quad_poly(a, b, c, t);
        assert(be / 2real == a - 2real * b + c);
        let w = t * (t * t);
        assert((0real / 3real) * w == 0real) by(nonlinear_arith);
    }
}
pub proof fn cub_pl(cv: Cv, i: int, a: real, b: real, c: real, d: real, ga: real, be: real, al: real)
    requires forall|t: real| #[trigger] cv(i, t) == cub(a, b, c, d, t), ga == 3real * (b - a), be == 6real * (a - 2real * b + c), al == 3real * (d - 3real * c + 3real * b - a),
    ensures forall|t: real| #[trigger] cv(i, t) == pl(a, ga, be, al, t),
{
    assert forall|t: real| #[trigger] cv(i, t) == pl(a, ga, be, al, t) by {
        cub_poly(a, b, c, d, t);
        assert(be / 2real == 3real * (a - 2real * b + c) && al / 3real == d - 3real * c + 3real * b - a);
    }
}
""")


LEMMAS["pl"] = (L_pl, ["at01"])

CT["LineSegment::root"] = dict(params=["a", "b"], ensures="roots1(ret@, a.val(), b.val())")
CT["QuadraticBezier::real_roots"] = dict(
    params=["a", "b", "c"], ensures="roots2(ret@, a.val(), b.val(), c.val())",
    tail={"*": """{ let (a__, b__, c__) = (a.val(), b.val(), c.val()); let d__ = b__ * b__ - (a__ * c__) * 4real;
        if rabs(a__) >= eps() && d__ > 0real {
            axiom_sqrt(d__);
            let s__ = rsqrt(d__);
            assert(s__ > 0real) by(nonlinear_arith) requires s__ * s__ == d__, d__ > 0real, s__ >= 0real;
            let q__ = if b__ < 0real { (-b__ + s__) / 2real } else { (-b__ - s__) / 2real };
            root_pair(a__, b__, c__, s__, q__);
        } }"""})
CT["LineSegment::bounding_box"] = dict(
    dim_param=True, requires="DIM == P::dim()", muts=["bounds"],
    ensures=AXES.format(n="DIM", cv="line_cv(self.start, self.end)", b="ret"),
    loops={0: dict(kind="for", inv=AXES.format(n="$i", cv="line_cv(self.start, self.end)", b="bounds"),
                   end="proof { box_line(line_cv(self.start, self.end), $i as int, self.start.c($i as int), self.end.c($i as int)); }")})


def box(cv, pl, ga, be, al, ends):
    r = box_(cv, pl, ga, be, al, ends)
    AT = "attained({cv}, $o as int, {v})"
    # roots kept and evaluated in lists; running bounds instead of sorting
    r["alts"].append(dict(shape=["for 0 .. [1]", "while [2]", "while [2]", "for 0 .. [2]"], muts=["bounds", "extrema", "lo", "hi"], loops={
        0: dict(kind="for", inv=r["loops"][0]["inv"],
                end=f"""proof {{
                    let i__ = $i as int; let cv__ = {cv}; let rt__ = pre__1@; let kp__ = pre__2@; let ex__ = av__1@;
                    {pl} {ends}
                    assert(kept(kp__, rt__));
                    assert(lo.val() <= ex__[ex__.len() - 1].val() <= hi.val());
                    if ex__.len() > 1 {{ assert(lo.val() <= ex__[ex__.len() - 2].val() <= hi.val()); }}
                    assert forall|j: int| 0 <= j < rt__.len() && 0real < (#[trigger] rt__[j]).val() < 1real implies lo.val() <= cv__(i__, rt__[j].val()) <= hi.val() by {{
                        let m = choose|m: int| 0 <= m < kp__.len() && kp__[m] == rt__[j]; assert(lo.val() <= ex__[m].val() <= hi.val()); }}
                    box_range(cv__, i__, self.start.c(i__), {ga}, {be}, {al}, rt__, lo.val(), hi.val()); }}"""),
        1: r["loops"][1], 2: r["loops"][2],
        3: dict(kind="for", before=f"let ghost s0__ = lo.val() <= ({cv})($o as int, 0real) <= hi.val(); let ghost s1__ = lo.val() <= ({cv})($o as int, 1real) <= hi.val(); let ghost nonempty__ = av__1@.len() > 0; "
                                   f"proof {{ let i__ = $o as int; {ends} assert(attained({cv}, i__, ({cv})(i__, 0real)) && attained({cv}, i__, ({cv})(i__, 1real))); "
                                   f"assert forall|j: int| 0 <= j < av__1@.len() implies attained({cv}, i__, #[trigger] av__1@[j].val()) by {{ if j < pre__2@.len() {{ assert(0real < pre__2@[j].val() < 1real); assert(av__1@[j].val() == ({cv})(i__, pre__2@[j].val())); }} }} }}",
                inv=f"lo.val() <= hi.val(), {AT.format(cv=cv, v='lo.val()')}, {AT.format(cv=cv, v='hi.val()')}, s0__ ==> lo.val() <= ({cv})($o as int, 0real) <= hi.val(), s1__ ==> lo.val() <= ({cv})($o as int, 1real) <= hi.val(), "
                    "forall|j: int| 0 <= j < $i ==> lo.val() <= (#[trigger] av__1@[j]).val() <= hi.val()")}))
    return r


def box_(cv, pl, ga, be, al, ends):
    return dict(
        dim_param=True, requires="DIM == P::dim()", muts=["bounds", "extrema"], lets=None, tys={"bounds": "[(P::Scalar, P::Scalar); DIM]"}, lemmas=["pl"],
        ensures=AXES.format(n="DIM", cv=cv, b="ret"), attrs=["loop_isolation(false)"],
        loops={0: dict(kind="for", inv=AXES.format(n="$i", cv=cv, b="bounds"),
                       end=f"""proof {{
                           let i__ = $i as int; let cv__ = {cv}; let rt__ = pre__1@; let kp__ = pre__2@; let pr__ = pre__3@; let fin__ = extrema@;
                           {pl} {ends}
                           assert(images(pr__, kp__, cv__, i__, 0));
                           assert(sorted_from(fin__, pr__));
                           box_list(cv__, i__, self.start.c(i__), {ga}, {be}, {al}, rt__, kp__, pr__, fin__, 0); }}"""),
               1: dict(kind="while", dec="pre__1@.len() - k__1",
                       inv="k__1 <= pre__1@.len(), extrema@ == pre__1@, kept__1@.len() <= k__1, pre__1@.len() <= 2, "
                           "forall|j: int| 0 <= j < kept__1@.len() ==> 0real < (#[trigger] kept__1@[j]).val() < 1real, "
                           "forall|j: int| 0 <= j < k__1 && 0real < (#[trigger] pre__1@[j]).val() < 1real ==> kept__1@.contains(pre__1@[j])",
                       start="let ghost kold__ = kept__1;",
                       end="""proof { assert forall|j: int| 0 <= j < k__1 && 0real < (#[trigger] pre__1@[j]).val() < 1real implies kept__1@.contains(pre__1@[j]) by {
                           if j < k__1 - 1 { assert(kold__@.contains(pre__1@[j])); let m = choose|m: int| 0 <= m < kold__@.len() && kold__@[m] == pre__1@[j]; assert(kept__1@[m] == pre__1@[j]); }
                           else { assert(kept__1@[kept__1@.len() - 1] == pre__1@[j]); } } }"""),
               2: dict(kind="while", dec="pre__2@.len() - k__2",
                       inv=f"k__2 <= pre__2@.len(), extrema@.len() == pre__2@.len(), "
                           f"forall|j: int| 0 <= j < k__2 ==> (#[trigger] extrema@[j]).val() == ({cv})($o as int, pre__2@[j].val()), "
                           f"forall|j: int| k__2 <= j < pre__2@.len() ==> (#[trigger] extrema@[j]) == pre__2@[j]")},
        alts=[
            # one loop over the roots that pushes the values at those inside
            dict(shape=["for 0 .. [1]", "for 0 .. [1]"], loops={
                0: dict(kind="for", inv=AXES.format(n="$i", cv=cv, b="bounds"),
                        end=f"""proof {{
                           let i__ = $i as int; let cv__ = {cv}; let pr__ = pre__1@; let fin__ = extrema@;
                           {pl} {ends}
                           assert(kept(kp__, rt__));
                           assert(images(pr__, kp__, cv__, i__, off__));
                           assert(sorted_from(fin__, pr__));
                           box_list(cv__, i__, self.start.c(i__), {ga}, {be}, {al}, rt__, kp__, pr__, fin__, off__); }}"""),
                1: dict(kind="for", before="let ghost rt__ = av__1@; let ghost mut kp__ = Seq::<P::Scalar>::empty(); let ghost base__ = extrema@; let ghost off__ = extrema@.len() as int;",
                        inv=f"rt__ == av__1@, rt__.len() <= 2, kp__.len() <= $i, off__ <= 2, off__ == base__.len(), extrema@.len() == kp__.len() + off__, forall|j: int| 0 <= j < off__ ==> (#[trigger] extrema@[j]) == base__[j], forall|j: int| 0 <= j < kp__.len() ==> 0real < (#[trigger] kp__[j]).val() < 1real, "
                            "forall|j: int| 0 <= j < $i && 0real < (#[trigger] rt__[j]).val() < 1real ==> kp__.contains(rt__[j]), "
                            f"forall|j: int| off__ <= j < kp__.len() + off__ ==> (#[trigger] extrema@[j]).val() == ({cv})($o as int, kp__[j - off__].val())",
                        start="let ghost kold__ = kp__;",
                        end="""proof { let x__ = rt__[$i as int];
                           if 0real < x__.val() < 1real { kp__ = kp__.push(x__); }
                           assert forall|j: int| 0 <= j < $i + 1 && 0real < (#[trigger] rt__[j]).val() < 1real implies kp__.contains(rt__[j]) by {
                           if j < $i { assert(kold__.contains(rt__[j])); let m = choose|m: int| 0 <= m < kold__.len() && kold__[m] == rt__[j]; assert(kp__[m] == rt__[j]); }
                           else { assert(kp__[kp__.len() - 1] == rt__[j]); } } }""")}),
            # one loop over the roots that widens the bounds
            dict(shape=["for 0 .. [1]", "for 0 .. [2]"], muts=["bounds", "lo", "hi"], loops={
                0: dict(kind="for", inv=AXES.format(n="$i", cv=cv, b="bounds"),
                        end=f"""proof {{
                           let i__ = $i as int; let cv__ = {cv};
                           {pl} {ends}
                           box_range(cv__, i__, self.start.c(i__), {ga}, {be}, {al}, rt__, lo.val(), hi.val()); }}"""),
                1: dict(kind="for", before=f"let ghost rt__ = av__1@; proof {{ let i__ = $i as int; {ends} assert(attained({cv}, i__, ({cv})(i__, 0real)) && attained({cv}, i__, ({cv})(i__, 1real))); }}".replace("$i", "$o"),
                        inv=f"rt__ == av__1@, lo.val() <= hi.val(), attained({cv}, $o as int, lo.val()), attained({cv}, $o as int, hi.val()), lo.val() <= ({cv})($o as int, 0real) <= hi.val(), lo.val() <= ({cv})($o as int, 1real) <= hi.val(), "
                            f"forall|j: int| 0 <= j < $i && 0real < (#[trigger] rt__[j]).val() < 1real ==> lo.val() <= ({cv})($o as int, rt__[j].val()) <= hi.val()",
                        end=f"proof {{ let x__ = rt__[$i as int].val(); if 0real < x__ < 1real {{ assert(attained({cv}, $o as int, ({cv})($o as int, x__))); }} }}")})])


_q = ["self.start.c(i__)", "self.ctrl.c(i__)", "self.end.c(i__)"]
_c = ["self.start.c(i__)", "self.ctrl1.c(i__)", "self.ctrl2.c(i__)", "self.end.c(i__)"]
_QG, _QB = f"2real * ({_q[1]} - {_q[0]})", f"2real * ({_q[0]} - 2real * {_q[1]} + {_q[2]})"
_CG, _CB, _CA = f"3real * ({_c[1]} - {_c[0]})", f"6real * ({_c[0]} - 2real * {_c[1]} + {_c[2]})", f"3real * ({_c[3]} - 3real * {_c[2]} + 3real * {_c[1]} - {_c[0]})"
CT["QuadraticBezier::bounding_box"] = box("quad_cv(*self)", f"quad_pl(cv__, i__, {', '.join(_q)}, {_QG}, {_QB});", _QG, _QB, "0real",
                                          f"quad_at0({', '.join(_q)}); quad_at1({', '.join(_q)});")
CT["CubicBezier::bounding_box"] = box("cub_cv(*self)", f"cub_pl(cv__, i__, {', '.join(_c)}, {_CG}, {_CB}, {_CA});", _CG, _CB, _CA,
                                      f"cub_at0({', '.join(_c)}); cub_at1({', '.join(_c)});")
for k in ("QuadraticBezier::bounding_box", "CubicBezier::bounding_box"):
    CT[k].pop("lets")
BOX = ["LineSegment::root", "QuadraticBezier::real_roots", "LineSegment::bounding_box", "QuadraticBezier::bounding_box", "CubicBezier::bounding_box"]
