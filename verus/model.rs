// ---- content models of element declarations (xmlparse.rs)
// position of the terminator
pub open spec fn zlen(m: Seq<i8>, i: int) -> int decreases m.len() - i {
    if i >= m.len() { m.len() as int } else if m[i] == 0 { i } else { zlen(m, i + 1) }
}
pub proof fn zlen_at(m: Seq<i8>, i: int)
    requires 0 <= i <= m.len(),
    ensures i <= zlen(m, i) <= m.len(), zlen(m, i) < m.len() ==> m[zlen(m, i)] == 0, forall|k: int| i <= k < zlen(m, i) ==> m[k] != 0,
    decreases m.len() - i,
{ if i < m.len() && m[i] != 0 { zlen_at(m, i + 1); } }

#[derive(Clone, Copy)]
pub struct ContentScaffold { pub type_0: XML_Content_Type, pub quant: XML_Content_Quant, pub name: Ptr, pub firstchild: usize, pub lastchild: usize, pub childcnt: usize, pub nextsib: usize }
pub struct DTDScaffold { pub scaffold: Vec<ContentScaffold>, pub index: Vec<usize> }
pub struct Dtd { pub scaffold: DTDScaffold, pub contentStringLen: usize, pub in_eldecl: bool }
pub struct PrologState { pub level: u32 }
// what has been reported to the element declaration handler
pub enum Decl { One(Ptr, One), Model(Ptr, Mem, Seq<int>) }
pub struct Parser { pub m_dtd: Dtd, pub m_groupSize: u32, pub m_groupConnector: Conn, pub m_prologState: PrologState, pub m_declElementType: El, pub handler: bool, pub tree: Ghost<Tree>, pub log: Ghost<Seq<Decl>> }
// all bytes zero (the type is set by the caller before it is read)
#[verifier::external_body]
pub fn zeroed() -> (r: ContentScaffold)
    ensures r.firstchild == 0, r.lastchild == 0, r.childcnt == 0, r.nextsib == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn reserve_fails<T>(v: &mut Vec<T>, n: usize) -> (r: bool) ensures final(v)@ == old(v)@, { unimplemented!() }
pub fn last_of(v: &Vec<usize>) -> (r: &usize) requires v@.len() > 0, ensures *r == v@.last(), { &v[v.len() - 1] }
// `try_into().unwrap()`
pub fn to_u32(n: usize) -> (r: u32) requires n <= u32::MAX, ensures r == n, { n as u32 }

// ---- the tree a scaffold stands for: the parts inside each part, and for each part the one it is in
pub struct Tree { pub ks: Seq<Seq<int>>, pub par: Seq<int>, pub pos: Seq<int> }
pub open spec fn part_ok(s: Seq<ContentScaffold>, t: Tree, n: int) -> bool {
    &&& s[n].childcnt == t.ks[n].len()
    &&& if t.ks[n].len() > 0 { s[n].firstchild == t.ks[n][0] && s[n].lastchild == t.ks[n].last() } else { s[n].lastchild == 0 }
}
pub open spec fn kid_ok(s: Seq<ContentScaffold>, t: Tree, n: int, j: int) -> bool {
    let k = t.ks[n][j];
    &&& n < k < s.len() && j < k
    &&& t.par[k] == n && t.pos[k] == j
    &&& (j + 1 < t.ks[n].len() ==> s[k].nextsib == t.ks[n][j + 1])
}
pub open spec fn home_ok(t: Tree, k: int) -> bool {
    0 <= t.par[k] < k && 0 <= t.pos[k] < t.ks[t.par[k]].len() && t.ks[t.par[k]][t.pos[k]] == k
}
#[verifier::opaque]
pub open spec fn wf_scaffold(s: Seq<ContentScaffold>, t: Tree) -> bool {
    &&& t.ks.len() == s.len() && t.par.len() == s.len() && t.pos.len() == s.len()
    &&& forall|n: int| #![trigger t.ks[n]] 0 <= n < s.len() ==> part_ok(s, t, n)
    &&& forall|n: int, j: int| #![trigger t.ks[n][j]] 0 <= n < s.len() && 0 <= j < t.ks[n].len() ==> kid_ok(s, t, n, j)
    &&& forall|k: int| #![trigger t.par[k]] 0 < k < s.len() ==> home_ok(t, k)
}
// what is known of one part
pub proof fn kids_of(s: Seq<ContentScaffold>, t: Tree, n: int)
    requires wf_scaffold(s, t), 0 <= n < s.len(),
    ensures part_ok(s, t, n), t.ks[n].len() < s.len(), t.ks[n].len() > 0 ==> kid_ok(s, t, n, t.ks[n].len() - 1) && s[n].lastchild > n,
        forall|j: int| #![trigger t.ks[n][j]] 0 <= j < t.ks[n].len() ==> kid_ok(s, t, n, j),
{ reveal(wf_scaffold); assert(part_ok(s, t, n)); if t.ks[n].len() > 0 { let l = t.ks[n][t.ks[n].len() - 1]; assert(kid_ok(s, t, n, t.ks[n].len() - 1)); } }

// ---- DTDScaffold::next_part: a new part at the end of the group that is open
pub open spec fn open_group(d: DTDScaffold) -> bool {
    if d.index@.len() == 0 { d.scaffold@.len() == 0 } else { d.index@.last() < d.scaffold@.len() }
}
pub open spec fn same_part(a: ContentScaffold, b: ContentScaffold) -> bool { a.type_0 == b.type_0 && a.quant == b.quant && a.name == b.name }
pub open spec fn appended(d: DTDScaffold, z: Seq<ContentScaffold>) -> bool {
    let n = d.scaffold@.len() as int;
    let s = d.scaffold@;
    &&& z.len() == n + 1
    &&& z[n].childcnt == 0 && z[n].lastchild == 0
    &&& forall|i: int| #![trigger z[i]] 0 <= i < n ==> same_part(s[i], z[i])
    &&& d.index@.len() == 0 ==> forall|i: int| #![trigger z[i]] 0 <= i < n ==> z[i] == s[i]
    &&& d.index@.len() > 0 ==> ({
        let g = d.index@.last() as int;
        &&& z[g].childcnt == s[g].childcnt + 1 && z[g].lastchild == n && z[g].firstchild == (if s[g].childcnt == 0 { n } else { s[g].firstchild as int })
        &&& (s[g].lastchild != g ==> z[g].nextsib == s[g].nextsib)
        &&& s[g].childcnt > 0 ==> z[s[g].lastchild as int].nextsib == n
        &&& forall|i: int| #![trigger z[i]] 0 <= i < n && i != g ==> z[i].childcnt == s[i].childcnt && z[i].firstchild == s[i].firstchild && z[i].lastchild == s[i].lastchild
        &&& forall|i: int| #![trigger z[i]] 0 <= i < n && !(s[g].childcnt > 0 && i == s[g].lastchild) ==> z[i].nextsib == s[i].nextsib
    })
}
pub open spec fn grown(d: DTDScaffold, t: Tree) -> Tree {
    let n = d.scaffold@.len() as int;
    if d.index@.len() == 0 { Tree { ks: t.ks.push(Seq::empty()), par: t.par.push(-1), pos: t.pos.push(-1) } }
    else {
        let g = d.index@.last() as int;
        Tree { ks: t.ks.update(g, t.ks[g].push(n)).push(Seq::empty()), par: t.par.push(g), pos: t.pos.push(t.ks[g].len() as int) }
    }
}
// the part is the last of its group; all the rest of the tree stays as it was
pub proof fn grows(d: DTDScaffold, z: Seq<ContentScaffold>, t: Tree)
    requires wf_scaffold(d.scaffold@, t), open_group(d), appended(d, z),
    ensures wf_scaffold(z, grown(d, t)),
{ reveal(wf_scaffold);
    let (s, u) = (d.scaffold@, grown(d, t));
    let n = s.len() as int;
    if d.index@.len() > 0 {
        let g = d.index@.last() as int;
        kids_of(s, t, g);
        assert forall|x: int| #![trigger u.ks[x]] 0 <= x < z.len() implies part_ok(z, u, x) by {
            if x < n { assert(part_ok(s, t, x)) by { let y = t.ks[x]; } let w = z[x]; if x != g { assert(u.ks[x] == t.ks[x]); } }
        }
        assert forall|x: int, j: int| #![trigger u.ks[x][j]] 0 <= x < z.len() && 0 <= j < u.ks[x].len() implies kid_ok(z, u, x, j) by {
            assert(x < n);
            if j < t.ks[x].len() {
                let k = t.ks[x][j];
                assert(kid_ok(s, t, x, j));
                assert(u.ks[x][j] == k);
                let w = z[k];
                if x == g && j + 1 == t.ks[g].len() { assert(k == s[g].lastchild); }
                else if j + 1 < t.ks[x].len() {
                    // the only link that changed is the one of the part that was the last of the group
                    if k == s[g].lastchild && t.ks[g].len() > 0 { assert(t.par[k] == g && t.pos[k] == t.ks[g].len() - 1); }
                    assert(z[k].nextsib == s[k].nextsib);
                    assert(u.ks[x][j + 1] == t.ks[x][j + 1]);
                }
            } else { assert(x == g && j == t.ks[g].len() && u.ks[g][j] == n); }
        }
        assert forall|k: int| #![trigger u.par[k]] 0 < k < z.len() implies home_ok(u, k) by {
            if k < n { assert(home_ok(t, k)) by { let y = t.par[k]; } let y = u.ks[t.par[k]][t.pos[k]]; }
        }
    } else { let w = z[0]; }
}

// ---- the memory handed to the application: nodes, and the characters behind them
pub uninterp spec fn node_bytes() -> int;
pub uninterp spec fn char_bytes() -> int;
pub axiom fn sizes() ensures 1 <= node_bytes() <= 1024, 1 <= char_bytes() <= 4;
#[verifier::external_body]
pub fn size_node() -> (r: usize) ensures r == node_bytes(), 1 <= r <= 1024, { unimplemented!() }
#[verifier::external_body]
pub fn size_char() -> (r: usize) ensures r == char_bytes(), 1 <= r <= 4, { unimplemented!() }
#[derive(Clone, Copy)]
pub struct NPtr { pub none: bool, pub i: usize }
#[derive(Clone, Copy)]
pub struct CPtr { pub none: bool, pub i: usize }
#[derive(Clone, Copy)]
pub struct Node { pub type_0: XML_Content_Type, pub quant: XML_Content_Quant, pub name: CPtr, pub numchildren: u32, pub children: NPtr }
pub fn nnull() -> (r: NPtr) ensures r.none, { NPtr { none: true, i: 0 } }
pub fn cnull() -> (r: CPtr) ensures r.none, { CPtr { none: true, i: 0 } }
impl NPtr {
    pub fn is_null(&self) -> (r: bool) ensures r == self.none, { self.none }
    pub fn add(&self, n: usize) -> (r: NPtr) requires !self.none, self.i + n <= usize::MAX, ensures !r.none, r.i == self.i + n, { NPtr { none: false, i: self.i + n } }
}
impl CPtr {
    pub fn offset(self, n: isize) -> (r: CPtr) requires !self.none, 0 <= self.i + n <= isize::MAX, self.i <= isize::MAX, ensures !r.none, r.i == self.i + n, { CPtr { none: false, i: (self.i as isize + n) as usize } }
}
// one block; once characters are stored behind node number `cut`, the nodes end there
pub struct Mem { pub bytes: Ghost<int>, pub cut: Ghost<int>, pub nodes: Ghost<Seq<Node>>, pub chars: Ghost<Seq<i8>>, pub failed: Ghost<bool> }
pub open spec fn kept(a: Mem, b: Mem) -> bool { b.bytes == a.bytes && b.cut == a.cut && b.failed == a.failed }
impl Mem {
    #[verifier::external_body]
    pub fn alloc(&mut self, bytes: usize) -> (r: NPtr)
        ensures r.i == 0, final(self).failed@ == (old(self).failed@ || r.none), !r.none ==> final(self).bytes@ == bytes && final(self).cut@ == -1 && (forall|k: int| k >= 0 && k * node_bytes() <= bytes ==> k <= #[trigger] room(final(self).nodes@, k)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cast(&mut self, p: NPtr) -> (r: CPtr)
        requires !p.none, p.i * node_bytes() <= old(self).bytes@,
        ensures !r.none, r.i == 0, final(self).bytes == old(self).bytes, final(self).failed == old(self).failed, final(self).cut@ == p.i, final(self).nodes@ == old(self).nodes@.take(p.i as int), final(self).nodes@.len() == p.i,
            forall|k: int| k >= 0 && p.i * node_bytes() + #[trigger] chars_of(k) <= old(self).bytes@ ==> k <= final(self).chars@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node(&self, p: NPtr) -> (r: Node) requires !p.none, p.i < self.nodes@.len(), ensures r == self.nodes@[p.i as int], { unimplemented!() }
SETTERS
    #[verifier::external_body]
    pub fn put(&mut self, p: CPtr, c: i8)
        requires !p.none, p.i < old(self).chars@.len(),
        ensures final(self).chars@ == old(self).chars@.update(p.i as int, c), final(self).nodes == old(self).nodes, kept(*old(self), *final(self)),
    { unimplemented!() }
}
pub open spec fn room(s: Seq<Node>, k: int) -> int { s.len() as int }
pub open spec fn chars_of(k: int) -> int { k * char_bytes() }

// ---- names
pub open spec fn named(c: ContentScaffold) -> bool { c.type_0 == XML_Content_Type::NAME }
pub open spec fn wlen(c: ContentScaffold) -> int { if named(c) { zlen(c.name.mem@, c.name.pos as int) - c.name.pos + 1 } else { 0 } }
// only names have no parts, and their names are strings
#[verifier::opaque]
pub open spec fn leaves(s: Seq<ContentScaffold>, t: Tree) -> bool {
    forall|n: int| #![trigger s[n]] #![trigger t.ks[n]] 0 <= n < s.len() && named(s[n]) ==> t.ks[n].len() == 0 && zlen(s[n].name.mem@, s[n].name.pos as int) < s[n].name.mem@.len() <= isize::MAX && s[n].name.pos <= zlen(s[n].name.mem@, s[n].name.pos as int)
}
#[verifier::opaque]
pub open spec fn total(s: Seq<ContentScaffold>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(s, n - 1) + wlen(s[n - 1]) } }
// the names of those of the first n parts that are among the first i nodes
#[verifier::opaque]
pub open spec fn acc(s: Seq<ContentScaffold>, at: Seq<int>, i: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { acc(s, at, i, n - 1) + (if 0 <= at[n - 1] < i { wlen(s[n - 1]) } else { 0 }) }
}
pub proof fn acc_total(s: Seq<ContentScaffold>, t: Tree, at: Seq<int>, i: int, n: int)
    requires leaves(s, t), 0 <= n <= s.len(), ensures 0 <= acc(s, at, i, n) <= total(s, n), decreases n,
{ reveal(leaves); reveal(acc); reveal(total); if n > 0 { acc_total(s, t, at, i, n - 1); let c = s[n - 1]; } }
pub proof fn acc_same(s: Seq<ContentScaffold>, a: Seq<int>, b: Seq<int>, i: int, n: int)
    requires forall|k: int| #![trigger a[k]] 0 <= k < n ==> (0 <= a[k] < i <==> 0 <= b[k] < i), ensures acc(s, a, i, n) == acc(s, b, i, n), decreases n,
{ reveal(acc); if n > 0 { acc_same(s, a, b, i, n - 1); let x = a[n - 1]; } }
pub proof fn acc_zero(s: Seq<ContentScaffold>, at: Seq<int>, n: int) ensures acc(s, at, 0, n) == 0, decreases n, { reveal(acc); if n > 0 { acc_zero(s, at, n - 1); } }
pub proof fn acc_step(s: Seq<ContentScaffold>, at: Seq<int>, x: int, i: int, n: int)
    requires forall|k: int| #![trigger at[k]] 0 <= k < n ==> (at[k] == i <==> k == x), i >= 0, 0 <= x,
    ensures acc(s, at, i + 1, n) == acc(s, at, i, n) + (if x < n { wlen(s[x]) } else { 0 }), decreases n,
{ reveal(acc); if n > 0 { acc_step(s, at, x, i, n - 1); let y = at[n - 1]; } }

// ---- what is built: node k stands for part src[k]
#[verifier::opaque]
pub open spec fn text_at(m: Seq<i8>, p: int, n: Ptr, l: int) -> bool {
    0 <= p && p + l <= m.len() && (forall|q: int| #![trigger m[q]] p <= q < p + l ==> m[q] == n.mem@[n.pos + (q - p)])
}
#[verifier::opaque]
pub open spec fn kids_at(src: Seq<int>, c: int, ks: Seq<int>) -> bool { 0 <= c && c + ks.len() <= src.len() && forall|j: int| #![trigger ks[j]] 0 <= j < ks.len() ==> src[c + j] == ks[j] }
pub proof fn one_kid(src: Seq<int>, c: int, ks: Seq<int>, j: int)
    requires 0 <= j < ks.len(), c + j == src.len(),
    ensures kids_at(src, c, ks.take(j)) ==> kids_at(src.push(ks[j]), c, ks.take(j + 1)), forall|a: int, b: Seq<int>| kids_at(src, a, b) ==> #[trigger] kids_at(src.push(ks[j]), a, b),
{ reveal(kids_at); assert(kids_at(src, c, ks.take(j)) ==> kids_at(src.push(ks[j]), c, ks.take(j + 1))) by { assert forall|i: int| 0 <= i < j implies ks.take(j)[i] == #[trigger] ks.take(j + 1)[i] by {} } }
pub proof fn one_char(m: Seq<i8>, p: int, n: Ptr, l: int)
    requires 0 <= p, p + l < m.len(), l >= 0,
    ensures text_at(m, p, n, l) ==> text_at(m.update(p + l, n.mem@[n.pos + l]), p, n, l + 1), forall|a: int, x: Ptr, k: int, c: i8| a + k <= p && text_at(m, a, x, k) ==> #[trigger] text_at(m.update(p + l, c), a, x, k),
{ reveal(text_at); }
pub open spec fn done(m: Mem, s: Seq<ContentScaffold>, t: Tree, src: Seq<int>, k: int, end: int) -> bool {
    let (d, c) = (m.nodes@[k], s[src[k]]);
    &&& d.type_0 == c.type_0 && d.quant == c.quant
    &&& if named(c) { !d.name.none && text_at(m.chars@, d.name.i as int, c.name, wlen(c)) && d.name.i + wlen(c) <= end && d.numchildren == 0 && d.children.none }
        else {
            &&& d.name.none && d.numchildren == t.ks[src[k]].len() && !d.children.none && kids_at(src, d.children.i as int, t.ks[src[k]])
        }
}
#[verifier::opaque]
pub open spec fn perm(u: Seq<int>, n: int) -> bool { u.no_duplicates() && forall|k: int| 0 <= k < u.len() ==> 0 <= #[trigger] u[k] < n }
pub open spec fn same_tree(m: Mem, s: Seq<ContentScaffold>, t: Tree, src: Seq<int>) -> bool {
    &&& src.len() == s.len() && src[0] == 0 && perm(src, s.len() as int)
    &&& m.nodes@.len() == s.len()
    &&& forall|k: int| #![trigger m.nodes@[k]] 0 <= k < s.len() ==> done(m, s, t, src, k, m.chars@.len() as int)
}
#[verifier::opaque]
pub open spec fn srcs(src: Seq<int>, at: Seq<int>) -> bool { forall|k: int| #![trigger src[k]] 0 <= k < src.len() ==> 0 <= src[k] < at.len() && at[src[k]] == k }
#[verifier::opaque]
pub open spec fn ats(src: Seq<int>, at: Seq<int>) -> bool { forall|n: int| #![trigger at[n]] 0 <= n < at.len() ==> at[n] == -1 || 0 <= at[n] < src.len() && src[at[n]] == n }
// found are the parts inside the first i nodes and the first j parts inside node i
#[verifier::opaque]
pub open spec fn reached(t: Tree, at: Seq<int>, i: int, j: int) -> bool {
    forall|n: int| #![trigger t.par[n]] 0 < n < at.len() ==> (at[n] >= 0 <==> 0 <= at[t.par[n]] < i || (at[t.par[n]] == i && t.pos[n] < j))
}
pub proof fn pigeon(s: Seq<int>, m: int)
    requires s.no_duplicates(), m >= 0, forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < m, ensures s.len() <= m, decreases m,
{
    if s.len() > 0 {
        assert(0 <= s[0] < m);
        if exists|k: int| 0 <= k < s.len() && s[k] == m - 1 {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == m - 1;
            let u = s.remove(k);
            assert forall|a: int| 0 <= a < u.len() implies 0 <= #[trigger] u[a] < m - 1 by { let b = if a < k { a } else { a + 1 }; assert(u[a] == s[b] && b != k); }
            assert(u.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < u.len() && 0 <= b < u.len() && a != b implies u[a] != u[b] by { let c = if a < k { a } else { a + 1 }; let d = if b < k { b } else { b + 1 }; assert(u[a] == s[c] && u[b] == s[d]); } }
            pigeon(u, m - 1);
        } else { assert forall|a: int| 0 <= a < s.len() implies 0 <= #[trigger] s[a] < m - 1 by { assert(0 <= s[a] < m); } pigeon(s, m - 1); }
    }
}
pub proof fn distinct(src: Seq<int>, at: Seq<int>)
    requires srcs(src, at), ensures src.no_duplicates(), src.len() <= at.len(),
{ reveal(srcs); assert forall|a: int, b: int| 0 <= a < src.len() && 0 <= b < src.len() && a != b implies src[a] != src[b] by { let (x, y) = (src[a], src[b]); } pigeon(src, at.len() as int); }
pub proof fn all_found(s: Seq<ContentScaffold>, t: Tree, src: Seq<int>, at: Seq<int>, n: int)
    requires wf_scaffold(s, t), at.len() == s.len(), srcs(src, at), ats(src, at), src.len() > 0, src[0] == 0, reached(t, at, src.len() as int, 0), 0 <= n < s.len(),
    ensures at[n] >= 0, decreases n,
{ reveal(wf_scaffold); reveal(srcs); reveal(ats); reveal(reached); if n > 0 { assert(home_ok(t, n)) by { let y = t.par[n]; } all_found(s, t, src, at, t.par[n]); let x = at[t.par[n]]; let y = at[n]; } else { let x = src[0]; } }
// as long as not all parts have been built, there is one that has been found and not built
pub proof fn next_found(s: Seq<ContentScaffold>, t: Tree, src: Seq<int>, at: Seq<int>, i: int)
    requires wf_scaffold(s, t), at.len() == s.len(), srcs(src, at), ats(src, at), src.len() > 0, src[0] == 0, reached(t, at, i, 0), 0 <= i < s.len(), i <= src.len(),
    ensures i < src.len(), 0 <= src[i] < s.len(), at[src[i]] == i, src.no_duplicates(), src.len() <= s.len(),
        forall|k: int| #![trigger at[k]] 0 <= k < s.len() ==> (at[k] == i <==> k == src[i]),
{ reveal(wf_scaffold); reveal(srcs); reveal(ats); reveal(reached);
    distinct(src, at);
    if i == src.len() {
        assert forall|n: int| 0 <= n < s.len() implies 0 <= #[trigger] at[n] < i by { all_found(s, t, src, at, n); }
        assert(at.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < at.len() && 0 <= b < at.len() && a != b implies at[a] != at[b] by { let (x, y) = (src[at[a]], src[at[b]]); } }
        pigeon(at, i);
    } else { let x = src[i]; }
}
pub proof fn reached_next(s: Seq<ContentScaffold>, t: Tree, src: Seq<int>, at: Seq<int>, i: int)
    requires wf_scaffold(s, t), at.len() == s.len(), srcs(src, at), ats(src, at), 0 <= i < src.len(), reached(t, at, i, t.ks[src[i]].len() as int),
    ensures reached(t, at, i + 1, 0),
{ reveal(wf_scaffold); reveal(srcs); reveal(ats); reveal(reached);
    assert forall|n: int| #![trigger t.par[n]] 0 < n < at.len() implies (at[n] >= 0 <==> 0 <= at[t.par[n]] < i + 1) by { assert(home_ok(t, n)) by { let y = t.par[n]; } let x = src[i]; let y = at[t.par[n]]; }
}
// one more part of node i is found
pub proof fn find(s: Seq<ContentScaffold>, t: Tree, src: Seq<int>, at: Seq<int>, i: int, j: int)
    requires wf_scaffold(s, t), at.len() == s.len(), srcs(src, at), ats(src, at), src.len() > 0, src[0] == 0, 0 <= i < src.len(), 0 <= j < t.ks[src[i]].len(), reached(t, at, i, j),
    ensures ({
        let c = t.ks[src[i]][j];
        let (u, v) = (src.push(c), at.update(c, src.len() as int));
        &&& 0 <= c < s.len() && kid_ok(s, t, src[i], j) && u.len() <= s.len() && perm(u, s.len() as int) && srcs(u, v) && ats(u, v) && reached(t, v, i, j + 1)
        &&& forall|k: int| #![trigger v[k]] 0 <= k < s.len() ==> (0 <= v[k] < i + 1 <==> 0 <= at[k] < i + 1)
    }),
{ reveal(wf_scaffold); reveal(srcs); reveal(ats); reveal(reached);
    let x = src[i];
    let c = t.ks[x][j];
    assert(kid_ok(s, t, x, j));
    let (u, v) = (src.push(c), at.update(c, src.len() as int));
    assert(at[c] == -1) by { let y = at[c]; let z = at[t.par[c]]; }
    assert(srcs(u, v)) by { assert forall|k: int| #![trigger u[k]] 0 <= k < u.len() implies 0 <= u[k] < v.len() && v[u[k]] == k by { if k < src.len() { let y = src[k]; } } }
    assert(ats(u, v));
    assert(reached(t, v, i, j + 1)) by {
        assert forall|n: int| #![trigger t.par[n]] 0 < n < v.len() implies (v[n] >= 0 <==> 0 <= v[t.par[n]] < i || (v[t.par[n]] == i && t.pos[n] < j + 1)) by {
            assert(home_ok(t, n)) by { let y = t.par[n]; }
            let (y, z) = (at[n], at[t.par[n]]);
            if n != c && z == i { assert(t.par[n] == x); let w = t.ks[x][t.pos[n]]; }
        }
    }
    distinct(u, v);
    assert(perm(u, s.len() as int)) by { reveal(perm); }
}

// sizes do not overflow, and at the beginning nothing is found but the first part
pub proof fn start(s: Seq<ContentScaffold>, at: Seq<int>, strings: int)
    requires s.len() >= 1, at == Seq::new(s.len(), |n: int| if n == 0 { 0int } else { -1 }), strings >= 0,
    ensures acc(s, at, 0, s.len() as int) == 0, forall|t: Tree| wf_scaffold(s, t) ==> #[trigger] reached(t, at, 0, 0), srcs(first(), at), ats(first(), at), perm(first(), s.len() as int),
        0 <= s.len() * node_bytes(), s.len() <= u32::MAX ==> s.len() * node_bytes() <= u32::MAX * 1024, 0 <= chars_of(strings) <= strings * 4,
{ reveal(wf_scaffold); reveal(srcs); reveal(ats); reveal(reached);
    sizes(); reveal(perm);
    acc_zero(s, at, s.len() as int);
    assert forall|t: Tree| wf_scaffold(s, t) implies #[trigger] reached(t, at, 0, 0) by { assert forall|n: int| 0 < n < at.len() implies at[n] < 0 && 0 <= #[trigger] t.par[n] && !(at[t.par[n]] == 0 && t.pos[n] < 0) by { assert(home_ok(t, n)) by { let y = t.par[n]; } } }
    assert(0 <= s.len() * node_bytes()) by (nonlinear_arith) requires node_bytes() >= 1;
    assert(s.len() <= u32::MAX ==> s.len() * node_bytes() <= u32::MAX * 1024) by (nonlinear_arith) requires 1 <= node_bytes() <= 1024;
    assert(0 <= strings * char_bytes() <= strings * 4) by (nonlinear_arith) requires 1 <= char_bytes() <= 4, strings >= 0;
}
pub fn set_order(o: &mut Ghost<Seq<int>>, v: Ghost<Seq<int>>) ensures *final(o) == v, { *o = v; }
pub open spec fn first() -> Seq<int> { seq![0int] }

pub proof fn a_leaf(s: Seq<ContentScaffold>, t: Tree, n: int)
    requires leaves(s, t), 0 <= n < s.len(), named(s[n]),
    ensures t.ks[n].len() == 0, zlen(s[n].name.mem@, s[n].name.pos as int) < s[n].name.mem@.len() <= isize::MAX, s[n].name.pos <= zlen(s[n].name.mem@, s[n].name.pos as int), s[n].name.mem@[zlen(s[n].name.mem@, s[n].name.pos as int)] == 0,
        forall|k: int| s[n].name.pos <= k < zlen(s[n].name.mem@, s[n].name.pos as int) ==> s[n].name.mem@[k] != 0,
{ reveal(leaves); zlen_at(s[n].name.mem@, s[n].name.pos as int); }
pub proof fn no_kids(src: Seq<int>, c: int, ks: Seq<int>)
    requires 0 <= c <= src.len(), ensures kids_at(src, c, ks.take(0)), ks.take(ks.len() as int) == ks,
{ reveal(kids_at); assert(ks.take(ks.len() as int) =~= ks); }
pub proof fn no_text(m: Seq<i8>, p: int, n: Ptr) requires 0 <= p <= m.len(), ensures text_at(m, p, n, 0), { reveal(text_at); }

// ---- the arms of doProlog that read an element declaration
#[derive(Clone, Copy)]
pub struct El { pub none: bool, pub name: Ptr }
impl El { pub fn is_null(&self) -> (r: bool) ensures r == self.none, { self.none } }
// the name of an element type: the text of the token (C05), kept until the parser is freed
pub uninterp spec fn name_of(b: Buf) -> Ptr;
pub open spec fn is_string(p: Ptr) -> bool { p.pos <= zlen(p.mem@, p.pos as int) < p.mem@.len() <= isize::MAX }
#[verifier::external_body]
pub fn get_element_type(p: &Parser, enc: i32, b: Buf) -> (r: El)
    requires wf(b), ensures !r.none ==> r.name == name_of(b) && is_string(r.name),
{ unimplemented!() }
pub struct Enc { pub min: Ghost<int> }
impl Enc {
    #[verifier::external_body]
    pub fn minBytesPerChar(&self) -> (r: i32) ensures r == self.min@, 1 <= r <= 2, { unimplemented!() }
}
#[verifier::ext_equal]
pub struct Conn { pub none: bool, pub v: Ghost<Seq<i8>> }
impl Conn {
    pub fn is_null(&self) -> (r: bool) ensures r == self.none, { self.none }
    #[verifier::external_body]
    pub fn at(&self, i: isize) -> (r: i8) requires 0 <= i < self.v@.len(), ensures r == self.v@[i as int], { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, i: isize, c: i8) requires 0 <= i < old(self).v@.len(), ensures final(self).v@ == old(self).v@.update(i as int, c), final(self).none == old(self).none, { unimplemented!() }
}
#[verifier::external_body]
pub fn conn_new(n: u32) -> (r: Conn) ensures !r.none ==> r.v@.len() == n, r.none ==> r.v@.len() == 0, { unimplemented!() }
#[verifier::external_body]
pub fn conn_grow(c: &Conn, n: u32) -> (r: Conn) requires n >= c.v@.len(), ensures !r.none ==> r.v@.len() == n && (forall|i: int| 0 <= i < c.v@.len() ==> #[trigger] r.v@[i] == c.v@[i]), { unimplemented!() }
#[derive(Clone, Copy)]
pub struct One { pub none: bool, pub type_0: XML_Content_Type, pub quant: XML_Content_Quant, pub name: CPtr, pub numchildren: u32, pub children: NPtr }
impl One { pub fn is_null(&self) -> (r: bool) ensures r == self.none, { self.none } }
#[verifier::external_body]
pub fn one_node() -> (r: One) { unimplemented!() }
pub struct Built { pub p: NPtr, pub mem: Mem, pub order: Ghost<Seq<int>> }
impl Built { pub fn is_null(&self) -> (r: bool) ensures r == self.p.none, { self.p.none } }
#[verifier::external_body]
pub fn fresh() -> (r: Mem) ensures !r.failed@, { unimplemented!() }
impl Parser { pub fn hasElementDecl(&self) -> (r: bool) ensures r == self.handler, { self.handler } }
#[verifier::external_body]
pub fn report_one(p: &mut Parser, name: Ptr, c: One)
    requires !c.none, ensures rest(*old(p), *final(p)), final(p).log@ == old(p).log@.push(Decl::One(name, c)), final(p).m_dtd == old(p).m_dtd && final(p).tree == old(p).tree && same_groups(*old(p), *final(p)),
{ unimplemented!() }
#[verifier::external_body]
pub fn report_model(p: &mut Parser, name: Ptr, c: Built)
    requires !c.p.none, ensures rest(*old(p), *final(p)), final(p).log@ == old(p).log@.push(Decl::Model(name, c.mem, c.order@)), final(p).m_dtd == old(p).m_dtd && final(p).tree == old(p).tree && same_groups(*old(p), *final(p)),
{ unimplemented!() }
// the handler may be taken away while it is called
pub open spec fn rest(p: Parser, q: Parser) -> bool { q.m_prologState == p.m_prologState && q.m_declElementType == p.m_declElementType }
pub open spec fn same_groups(p: Parser, q: Parser) -> bool { q.m_groupSize == p.m_groupSize && q.m_groupConnector == p.m_groupConnector }
#[verifier::external_body]
pub fn set_tree(p: &mut Parser, t: Ghost<Tree>)
    ensures final(p).tree == t, rest(*old(p), *final(p)), same_groups(*old(p), *final(p)), final(p).m_dtd == old(p).m_dtd, final(p).log == old(p).log, final(p).handler == old(p).handler,
{ unimplemented!() }
pub fn call_build(p: &Parser) -> (r: Built)
    requires wf_scaffold(p.m_dtd.scaffold.scaffold@, p.tree@), leaves(p.m_dtd.scaffold.scaffold@, p.tree@), p.m_dtd.scaffold.scaffold@.len() >= 1, total(p.m_dtd.scaffold.scaffold@, p.m_dtd.scaffold.scaffold@.len() as int) <= p.m_dtd.contentStringLen < 0x1000_0000_0000_0000,
    ensures !r.p.none ==> r.p.i == 0 && same_tree(r.mem, p.m_dtd.scaffold.scaffold@, p.tree@, r.order@), r.p.none ==> r.mem.failed@ || p.m_dtd.scaffold.scaffold@.len() > u32::MAX,
{
    let mut mem = fresh();
    let mut order: Ghost<Seq<int>> = Ghost(first());
    let r = build_model(p, &mut mem, Ghost(p.tree@), &mut order);
    Built { p: r, mem: mem, order: order }
}
pub open spec fn groups_ok(p: Parser) -> bool { p.m_groupConnector.v@.len() == p.m_groupSize }
// while an element declaration is read: the scaffold is a tree, the open groups are in it, the names fit
pub open spec fn eldecl_ok(p: Parser) -> bool {
    let d = p.m_dtd.scaffold;
    p.m_dtd.in_eldecl ==> {
        &&& wf_scaffold(d.scaffold@, p.tree@) && leaves(d.scaffold@, p.tree@) && open_group(d)
        &&& 0 <= total(d.scaffold@, d.scaffold@.len() as int) <= p.m_dtd.contentStringLen
        &&& forall|k: int| #![trigger d.index@[k]] 0 <= k < d.index@.len() ==> d.index@[k] < d.scaffold@.len() && !named(d.scaffold@[d.index@[k] as int])
    }
}
pub open spec fn links(a: ContentScaffold, b: ContentScaffold) -> bool { a.firstchild == b.firstchild && a.lastchild == b.lastchild && a.childcnt == b.childcnt && a.nextsib == b.nextsib }
pub proof fn total_same(s: Seq<ContentScaffold>, z: Seq<ContentScaffold>, n: int)
    requires 0 <= n <= s.len(), n <= z.len(), forall|i: int| #![trigger z[i]] 0 <= i < n ==> named(s[i]) == named(z[i]) && s[i].name == z[i].name,
    ensures total(s, n) == total(z, n), decreases n,
{ reveal(total); if n > 0 { total_same(s, z, n - 1); let x = z[n - 1]; } }
// a part is given another type or quantifier
pub proof fn retyped(s: Seq<ContentScaffold>, z: Seq<ContentScaffold>, t: Tree)
    requires wf_scaffold(s, t), leaves(s, t), s.len() == z.len(), forall|i: int| #![trigger z[i]] 0 <= i < s.len() ==> links(s[i], z[i]) && named(s[i]) == named(z[i]) && s[i].name == z[i].name,
    ensures wf_scaffold(z, t), leaves(z, t), total(z, z.len() as int) == total(s, s.len() as int),
{
    reveal(wf_scaffold); reveal(leaves);
    total_same(s, z, s.len() as int);
    assert forall|n: int| #![trigger t.ks[n]] 0 <= n < z.len() implies part_ok(z, t, n) by { assert(part_ok(s, t, n)); let x = z[n]; }
    assert forall|n: int, j: int| #![trigger t.ks[n][j]] 0 <= n < z.len() && 0 <= j < t.ks[n].len() implies kid_ok(z, t, n, j) by { assert(kid_ok(s, t, n, j)); let x = z[t.ks[n][j]]; }
    assert forall|n: int| #![trigger z[n]] #![trigger t.ks[n]] 0 <= n < z.len() && named(z[n]) implies t.ks[n].len() == 0 && zlen(z[n].name.mem@, z[n].name.pos as int) < z[n].name.mem@.len() <= isize::MAX && z[n].name.pos <= zlen(z[n].name.mem@, z[n].name.pos as int) by { let x = s[n]; let y = z[n]; }
}
// a part is added
pub proof fn part_added(d: DTDScaffold, z: Seq<ContentScaffold>, t: Tree)
    requires wf_scaffold(d.scaffold@, t), leaves(d.scaffold@, t), open_group(d), appended(d, z), d.index@.len() > 0 ==> !named(d.scaffold@[d.index@.last() as int]), named(z.last()) ==> is_string(z.last().name), 0 <= total(d.scaffold@, d.scaffold@.len() as int),
    ensures wf_scaffold(z, grown(d, t)), leaves(z, grown(d, t)), total(z, z.len() as int) == total(d.scaffold@, d.scaffold@.len() as int) + wlen(z.last()), 0 <= total(z, z.len() as int),
{
    let s = d.scaffold@;
    let n = s.len() as int;
    grows(d, z, t);
    reveal(leaves);
    total_same(s, z, n);
    reveal(total);
    let u = grown(d, t);
    assert(wf_scaffold(s, t) ==> t.ks.len() == s.len()) by { reveal(wf_scaffold); }
    assert forall|i: int| #![trigger z[i]] #![trigger u.ks[i]] 0 <= i < z.len() && named(z[i]) implies u.ks[i].len() == 0 && zlen(z[i].name.mem@, z[i].name.pos as int) < z[i].name.mem@.len() <= isize::MAX && z[i].name.pos <= zlen(z[i].name.mem@, z[i].name.pos as int) by {
        if i < n { let x = s[i]; let y = z[i]; assert(same_part(s[i], z[i])); assert(u.ks[i] == t.ks[i]); }
    }
}

pub open spec fn only(s: Seq<ContentScaffold>, z: Seq<ContentScaffold>, i: int) -> bool {
    s.len() == z.len() && (forall|j: int| #![trigger z[j]] 0 <= j < s.len() && j != i ==> z[j] == s[j]) && links(s[i], z[i]) && z[i].name == s[i].name
}
pub open spec fn retype(s: Seq<ContentScaffold>, z: Seq<ContentScaffold>, i: int, t: XML_Content_Type) -> bool { only(s, z, i) && z[i].type_0 == t && z[i].quant == s[i].quant }
pub open spec fn requant(s: Seq<ContentScaffold>, z: Seq<ContentScaffold>, i: int, q: XML_Content_Quant) -> bool { only(s, z, i) && z[i].quant == q && z[i].type_0 == s[i].type_0 }
