//@include nodes_body.rs
//@include wrapper.rs
//@file core flmodules/src/random_connections/core.rs
//@file intern flmodules/src/random_connections/intern.rs
//@file rb flmodules/src/random_connections/broker.rs
//@file net flmodules/src/network/broker.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\.into\(\)/ => /.vx_nodes()/
//@sub /MODULE_NAME: &str/ => /MODULE_NAME: &'static str/
//@sub /\.unwrap_or\(/ => /.vx_unwrap_or(/
//@sub /\.(connected|connecting)\s*\.vx_contains\(/ => /.\1.contains(/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
#[verifier::external_body]
pub struct NodeInfo { x: u8 }
pub uninterp spec fn info_id(n: NodeInfo) -> U256;
impl NodeInfo { #[verifier::external_body] pub fn get_id(&self) -> (r: U256) ensures r == info_id(*self) { unimplemented!() } }
#[verifier::external_body]
pub struct NodeStat { x: u8 }
#[verifier::external_body]
pub struct NetworkConnectionState { x: u8 }
#[verifier::external_body]
pub struct FledgerConfig { x: u8 }
/// The watchers of the statistics (tokio::sync::watch).
#[verifier::external_body]
pub struct VxSender { x: u8 }
#[verifier::external_body]
pub struct VxReceiver { x: u8 }
#[verifier::external_body]
pub fn vx_channel(e: RandomStats) -> (r: (VxSender, VxReceiver)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_tell(tx: &mut Option<VxSender>, e: RandomStats) { unimplemented!() }
/// ceil(2 ln(nodes)), in floating point.
pub uninterp spec fn ln2(nodes: usize) -> usize;
#[verifier::external_body]
pub fn vx_ln2(nodes: usize) -> (r: usize) requires nodes >= 2, ensures r == ln2(nodes), 1 <= r <= 89 { unimplemented!() }
/// `choose_multiple` of the rand crate: distinct positions, as many as asked for if there are enough.
#[verifier::external_body]
pub fn vx_choose(v: &Vec<U256>, n: usize) -> (r: Vec<U256>)
    ensures r@.len() == (if n <= v@.len() { n as int } else { v@.len() as int }), forall|x: U256| #[trigger] r@.contains(x) ==> v@.contains(x), no_dup(v@) ==> no_dup(r@)
{ unimplemented!() }
pub fn vx_max0(a: i32) -> (r: i32) ensures r == if a < 0 { 0 } else { a as int } { if a < 0 { 0 } else { a } }
/// `itertools::concat`
#[verifier::external_body]
pub fn concat<const N: usize>(a: [Vec<InternOut>; N]) -> (r: Vec<InternOut>)
    ensures N == 1 ==> r@ == a@[0]@, N == 2 ==> r@ == a@[0]@ + a@[1]@, N == 3 ==> r@ == a@[0]@ + a@[1]@ + a@[2]@
{ unimplemented!() }

// ------------------------------------------------------------------ copied types
//@const net MODULE_NAME
//@struct core RandomStats
//@enum net NetworkIn
//@enum net NetworkOut
//@enum intern ModuleMessage
//@enum rb RandomIn
//@enum rb RandomOut
//@enum intern InternIn
//@enum intern InternOut
//@struct intern Config
//@struct intern Intern
//@  sub /watch::Sender<RandomStats>/ => /VxSender/
#[verifier::external_body]
pub fn vx_default() -> (r: RandomStats) ensures r.connected.0@.len() == 0, r.connecting.0@.len() == 0, r.known.0@.len() == 0, r.infos@.len() == 0 { unimplemented!() }
/// Assumed: less than 1'879'048'192 nodes are known.
pub axiom fn vx_few(s: &RandomStats) ensures s.known.0@.len() < 0x7000_0000;
/// Assumed: no node stays in a list for 2^32 ticks (136 years).
pub axiom fn vx_young(s: &RandomStats) ensures s.young();
pub open spec fn has_info(s: Seq<NodeInfo>, x: U256) -> bool { exists|i: int| 0 <= i < s.len() && info_id(#[trigger] s[i]) == x }
/// The two lists, each node once (itertools::unique).
#[verifier::external_body]
pub fn vx_join_infos(a: &Vec<NodeInfo>, b: &Vec<NodeInfo>) -> (r: Vec<NodeInfo>) ensures forall|x: U256| #[trigger] has_info(r@, x) <==> has_info(a@, x) || has_info(b@, x) { unimplemented!() }
/// r has the infos of all of these nodes, and of no other ones.
pub open spec fn infos_of(r: Seq<NodeInfo>, s: Seq<NodeInfo>, ids: Seq<U256>) -> bool { forall|n: NodeInfo| #[trigger] r.contains(n) <==> s.contains(n) && ids.contains(info_id(n)) }
pub open spec fn picked(s: Seq<NodeInfo>, fwd: Seq<int>, ids: Seq<U256>) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0 <==> ids.contains(info_id(s[j]))) }
pub open spec fn copies(r: Seq<NodeInfo>, f: Seq<&NodeInfo>) -> bool { r.len() == f.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] == *f[i] }
pub proof fn lemma_infos_of(s: Seq<NodeInfo>, f: Seq<&NodeInfo>, fwd: Seq<int>, bwd: Seq<int>, r: Seq<NodeInfo>, ids: Seq<U256>)
    requires filt(refs(s), f, fwd, bwd), picked(s, fwd, ids), copies(r, f),
    ensures infos_of(r, s, ids),
{
    assert forall|n: NodeInfo| #[trigger] r.contains(n) <==> s.contains(n) && ids.contains(info_id(n)) by {
        if r.contains(n) { let i = choose|i: int| 0 <= i < r.len() && r[i] == n; assert(*f[i] == n); assert(refs(s)[bwd[i]] == f[i]); assert(s[bwd[i]] == n); assert(fwd[bwd[i]] == i); }
        if s.contains(n) && ids.contains(info_id(n)) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; assert(fwd[j] >= 0); assert(*refs(s)[j] == n); assert(*f[fwd[j]] == n); assert(r[fwd[j]] == n); }
    }
}
pub proof fn lemma_info_ids(v: Seq<U256>, l: Seq<NodeInfo>)
    requires v.len() == l.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) == info_id(l[i]),
    ensures forall|x: U256| #[trigger] v.contains(x) <==> has_info(l, x),
{
    assert forall|x: U256| #[trigger] v.contains(x) <==> has_info(l, x) by {
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(info_id(l[i]) == x); }
        if has_info(l, x) { let i = choose|i: int| 0 <= i < l.len() && info_id(#[trigger] l[i]) == x; assert(v[i] == x); }
    }
}
/// `NodeIDs::from`
pub trait VxNodes: Sized { spec fn ids(&self) -> Seq<U256>; fn vx_nodes(&self) -> (r: NodeIDs) ensures r.0@ == self.ids(); }
impl VxNodes for Vec<U256> { open spec fn ids(&self) -> Seq<U256> { self@ } #[verifier::external_body] fn vx_nodes(&self) -> (r: NodeIDs) { unimplemented!() } }
pub open spec fn need(known: int) -> int { if known <= 1 { known } else { ln2(known as usize) as int } }
pub open spec fn max_of(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn min_of(a: int, b: int) -> int { if a <= b { a } else { b } }
pub proof fn lemma_one(x: U256) ensures forall|y: U256| #[trigger] seq![x].contains(y) <==> y == x, no_dup(seq![x]) { assert(seq![x][0] == x); }
/// What a and b both have, out of known.
pub proof fn lemma_count(k: Seq<U256>, a: Seq<U256>)
    requires no_dup(k), no_dup(a), forall|x: U256| #[trigger] a.contains(x) ==> k.contains(x),
    ensures part(k, a, true).len() == a.len(), part(k, a, false).len() == k.len() - a.len(),
{
    lemma_part(k, a, true);
    lemma_part(k, a, false);
    let p = part(k, a, true);
    lemma_same_len(p, a);
}
pub proof fn lemma_same_len(p: Seq<U256>, a: Seq<U256>)
    requires no_dup(p), no_dup(a), forall|x: U256| #[trigger] p.contains(x) <==> a.contains(x),
    ensures p.len() == a.len(),
{
    assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < j {} else { assert(p[j] != p[i]); } } }
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j {} else { assert(a[j] != a[i]); } } }
    p.unique_seq_to_set();
    a.unique_seq_to_set();
    assert(p.to_set() =~= a.to_set()) by { assert forall|x: U256| p.to_set().contains(x) <==> a.to_set().contains(x) by { assert(p.contains(x) <==> a.contains(x)); } }
}
impl RandomStats {
    pub open spec fn con(&self, x: U256) -> bool { self.connected.has(x) }
    pub open spec fn ing(&self, x: U256) -> bool { self.connecting.has(x) }
    pub open spec fn kno(&self, x: U256) -> bool { self.known.0@.contains(x) }
    pub open spec fn total(&self) -> int { self.connected.0@.len() as int + self.connecting.0@.len() }
    pub open spec fn need(&self) -> int { need(self.known.0@.len() as int) }
    pub open spec fn uniq(&self) -> bool { no_dup(self.connected.ids()) && no_dup(self.connecting.ids()) && no_dup(self.known.0@) }
    /// No node is there twice, or connected and connecting at the same time; all of them are known.
    pub open spec fn wf(&self) -> bool {
        &&& self.uniq()
        &&& forall|x: U256| #![trigger self.con(x)] #![trigger self.ing(x)] !(self.con(x) && self.ing(x))
        &&& forall|x: U256| #![trigger self.con(x)] #![trigger self.ing(x)] #![trigger self.kno(x)] self.con(x) || self.ing(x) ==> self.kno(x)
    }
    pub open spec fn free(&self, x: U256) -> bool { self.kno(x) && !self.con(x) && !self.ing(x) }
    /// A node which is neither connected, nor about to be, and known, is missing.
    pub open spec fn nfree(&self) -> int { self.known.0@.len() - self.total() }
    /// The nodes are not there anymore.
    pub open spec fn gone(&self, o: &Self, nodes: Seq<U256>) -> bool {
        forall|x: U256| #![trigger self.con(x)] #![trigger self.ing(x)] #![trigger self.kno(x)] (self.con(x) <==> o.con(x) && !nodes.contains(x)) && (self.ing(x) <==> o.ing(x) && !nodes.contains(x)) && (self.kno(x) <==> o.kno(x) && !nodes.contains(x))
    }
    pub open spec fn joined(&self, o: &Self, nodes: Seq<U256>) -> bool {
        forall|x: U256| #![trigger self.con(x)] #![trigger self.ing(x)] #![trigger self.kno(x)] (self.con(x) <==> o.con(x) || nodes.contains(x)) && (self.ing(x) <==> o.ing(x) && !nodes.contains(x)) && (self.kno(x) <==> o.kno(x) || nodes.contains(x))
    }
    pub open spec fn trying(&self, o: &Self, nodes: Seq<U256>) -> bool {
        forall|x: U256| #![trigger self.con(x)] #![trigger self.ing(x)] #![trigger self.kno(x)] (self.con(x) <==> o.con(x) && !nodes.contains(x)) && (self.ing(x) <==> o.ing(x) || nodes.contains(x)) && (self.kno(x) <==> o.kno(x) || nodes.contains(x))
    }
    /// These nodes, which were free, are tried now.
    pub open spec fn chosen(&self, o: &Self, nodes: Seq<U256>) -> bool {
        self.trying(o, nodes) && no_dup(nodes) && (forall|x: U256| #[trigger] nodes.contains(x) ==> o.free(x))
        && self.total() == o.total() + nodes.len() && self.known == o.known && self.connected == o.connected && self.infos == o.infos
    }
    pub open spec fn young(&self) -> bool {
        (forall|i: int| 0 <= i < self.connected.0@.len() ==> (#[trigger] self.connected.0@[i]).ticks < u32::MAX) && (forall|i: int| 0 <= i < self.connecting.0@.len() ==> (#[trigger] self.connecting.0@[i]).ticks < u32::MAX)
    }
//@fn core RandomStats::new_list
//@ spec
    requires old(self).uniq(),
    ensures final(self).uniq(), final(self).connected == old(self).connected, final(self).connecting == old(self).connecting, final(self).infos == old(self).infos, // [R01]
        forall|x: U256| #[trigger] final(self).known.0@.contains(x) <==> old(self).known.0@.contains(x) || list.0@.contains(x), // [R01]
        (forall|x: U256| #[trigger] list.0@.contains(x) ==> old(self).kno(x)) ==> final(self).known == old(self).known, // [R01]
//@ entry
    proof { lemma_merged(self.known.0@, list.0@); }
    let ghost l0 = list.0@;
//@ exit
    proof { lemma_merged(old(self).known.0@, l0); axiom_vec_ext(self.known.0, old(self).known.0); }
//@end
//@fn core RandomStats::total_len
//@ spec
    ensures res == self.total(), // [R02]
//@ entry
    proof { axiom_vec_len(self.connected.0); axiom_vec_len(self.connecting.0); }
//@end
//@fn core RandomStats::nodes_needed
//@ spec
    ensures res == self.need(), res <= 89, // [R02]
//@ sub /\(\(nodes as f64\)\.ln\(\) \* 2\.\)\.ceil\(\) as usize/ => /vx_ln2(nodes)/
//@end
//@fn core RandomStats::connect
//@ spec
    requires old(self).wf(), no_dup(nodes.0@),
    ensures final(self).wf(), final(self).joined(old(self), nodes.0@), final(self).infos == old(self).infos, // [R01]
//@ sub /&nodes\.dup\(\)\.vx_nodes\(\)/ => /&nodes.dup()/
//@ entry
    let ghost n0 = nodes.0@;
    proof { lemma_left_all(self.connecting, nodes.0@); lemma_grown_all(self.connected, nodes.0@); }
//@ exit
    proof { lemma_kept(self, old(self), n0, 1); }
//@end
//@fn core RandomStats::disconnect
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).gone(old(self), nodes.0@), final(self).infos == old(self).infos, // [R01]
//@ entry
    let ghost n0 = nodes.0@;
    proof { lemma_left_all(self.connecting, nodes.0@); lemma_left_all(self.connected, nodes.0@); lemma_part(self.known.0@, nodes.0@, false); }
//@ exit
    proof { lemma_kept(self, old(self), n0, 0); }
//@end
//@fn core RandomStats::failure
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).gone(old(self), nodes.0@), final(self).infos == old(self).infos, // [R01]
//@ entry
    let ghost n0 = nodes.0@;
    proof { lemma_left_all(self.connecting, nodes.0@); lemma_left_all(self.connected, nodes.0@); lemma_part(self.known.0@, nodes.0@, false); }
//@ exit
    proof { lemma_kept(self, old(self), n0, 0); }
//@end
//@fn core RandomStats::connecting
//@ spec
    requires old(self).wf(), no_dup(nodes.0@),
    ensures final(self).wf(), final(self).trying(old(self), nodes.0@), final(self).infos == old(self).infos, // [R01]
        (forall|x: U256| #[trigger] nodes.0@.contains(x) ==> old(self).free(x)) ==> final(self).chosen(old(self), nodes.0@), // [R01]
//@ entry
    let ghost n0 = nodes.0@;
    proof { lemma_left_all(self.connected, nodes.0@); lemma_grown_all(self.connecting, nodes.0@); }
//@ exit
    proof { lemma_kept(self, old(self), n0, 2); axiom_vec_ext(self.connected.0, old(self).connected.0); if forall|x: U256| #[trigger] n0.contains(x) ==> old(self).free(x) { lemma_free(old(self), n0); } }
//@end
//@fn core RandomStats::choose_new
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).chosen(old(self), res.0@), // [R01]
        res.0@.len() == min_of(nodes as int, old(self).nfree()), // [R02]
//@ sub /unused\s*\.0\s*\.choose_multiple\(&mut rand::thread_rng\(\), nodes\)\s*\.vx_cloned\(\)\s*\.vx_collect\(\)/ => /vx_choose(&unused.0, nodes)/
//@ sub /\bmin\(/ => /vx_min2(/
//@ entry
    proof { lemma_unused(*self); }
//@end
//@fn core RandomStats::fill_up
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).chosen(old(self), res.0@), // [R01]
        res.0@.len() == min_of(max_of(0, (old(self).need() + 1) / 2 - old(self).total()), old(self).nfree()), // [R02]
//@ sub /\bmax\(0, / => /vx_max0(/
//@ entry
    proof { lemma_unused(*self); vx_few(self); }
//@end
//@fn core RandomStats::new
//@ spec
    ensures res.wf(), res.connected.0@.len() == 0, res.connecting.0@.len() == 0, res.known.0@.len() == 0, res.infos@.len() == 0, // [R01]
//@ sub /Self::default\(\)/ => /vx_default()/
//@end
//@fn core RandomStats::new_infos
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).connected == old(self).connected, final(self).connecting == old(self).connecting, // [R01]
        forall|x: U256| #[trigger] final(self).kno(x) <==> old(self).kno(x) || has_info(list@, x), // [R01]
        forall|x: U256| #[trigger] has_info(final(self).infos@, x) <==> has_info(old(self).infos@, x) || has_info(list@, x), // [R03]
//@ closure 0 -> (r: U256) ensures r == info_id(*ni)
//@ sub /self\s*\.infos\s*\.vx_iter\(\)\s*\.vx_chain\(list\.vx_iter\(\)\)\s*\.vx_unique\(\)\s*\.vx_cloned\(\)\s*\.vx_collect\(\)/ => /vx_join_infos(&self.infos, &list)/
//@ sub /self\.new_list\(\s*(list[\s\S]*?\.vx_nodes\(\)),\s*\);/ => /let vx_l = \1; proof { lemma_info_ids(vx_l.0@, list@); } self.new_list(vx_l);/
//@ exit
    proof {
        assert forall|x: U256| #![trigger self.con(x)] #![trigger self.ing(x)] !(self.con(x) && self.ing(x)) by { assert(!(old(self).con(x) && old(self).ing(x))); }
        assert forall|x: U256| #![trigger self.con(x)] #![trigger self.ing(x)] #![trigger self.kno(x)] self.con(x) || self.ing(x) implies self.kno(x) by { assert(old(self).con(x) || old(self).ing(x) ==> old(self).kno(x)); }
    }
//@end
//@fn core RandomStats::get_connected_info
//@ spec
    ensures infos_of(res@, self.infos@, self.connected.ids()), // [R03]
//@ closure 0 -> (r: bool) ensures r == self.con(info_id(**ni))
//@ entry
    proof {
        assert forall|f: Seq<&NodeInfo>, fwd: Seq<int>, bwd: Seq<int>, r: Seq<NodeInfo>| #![trigger filt(refs(self.infos@), f, fwd, bwd), infos_of(r, self.infos@, self.connected.ids())]
            filt(refs(self.infos@), f, fwd, bwd) && picked(self.infos@, fwd, self.connected.ids()) && copies(r, f) implies infos_of(r, self.infos@, self.connected.ids()) by { lemma_infos_of(self.infos@, f, fwd, bwd, r, self.connected.ids()); }
    }
//@end
//@fn core RandomStats::tick
//@ spec
    requires old(self).wf(), old(self).young(),
    ensures final(self).wf(), final(self).known == old(self).known, final(self).infos == old(self).infos, final(self).connected.ids() == old(self).connected.ids(), final(self).connecting.ids() == old(self).connecting.ids(), // [R01]
//@ exit
    proof { assert(self.connected.ids() =~= old(self).connected.ids()); assert(self.connecting.ids() =~= old(self).connecting.ids()); assert(forall|x: U256| #[trigger] self.con(x) <==> old(self).con(x)); assert(forall|x: U256| #[trigger] self.ing(x) <==> old(self).ing(x)); assert(forall|x: U256| #[trigger] self.kno(x) <==> old(self).kno(x)); }
//@end
}
/// Taking the same nodes out of all lists, or moving them between the lists, keeps these apart.
pub proof fn lemma_kept(s: &RandomStats, o: &RandomStats, nodes: Seq<U256>, how: int)
    requires o.wf(), s.uniq(), if how == 0 { s.gone(o, nodes) } else if how == 1 { s.joined(o, nodes) } else { s.trying(o, nodes) },
    ensures s.wf(),
{
    assert forall|x: U256| #![trigger s.con(x)] #![trigger s.ing(x)] !(s.con(x) && s.ing(x)) by { assert(!(o.con(x) && o.ing(x))); }
    assert forall|x: U256| #![trigger s.con(x)] #![trigger s.ing(x)] #![trigger s.kno(x)] s.con(x) || s.ing(x) implies s.kno(x) by { assert(o.con(x) || o.ing(x) ==> o.kno(x)); }
}
pub proof fn lemma_free(o: &RandomStats, nodes: Seq<U256>)
    requires forall|x: U256| #[trigger] nodes.contains(x) ==> o.free(x),
    ensures forall|x: U256| #[trigger] nodes.contains(x) ==> o.kno(x) && !o.connected.has(x) && !o.connecting.has(x),
{}
pub proof fn lemma_left_all(o: Nodes, nodes: Seq<U256>)
    ensures forall|f: Seq<NodeTime>| #[trigger] left(o.0@, f, nodes, false) ==> f.len() <= o.0@.len()
        && (no_dup(o.ids()) ==> no_dup(ids_of(f))) && has_left(o.0@, f, nodes) && ((forall|x: U256| #[trigger] nodes.contains(x) ==> !o.has(x)) ==> f == o.0@),
{
    assert forall|f: Seq<NodeTime>| #[trigger] left(o.0@, f, nodes, false) implies f.len() <= o.0@.len()
        && (no_dup(o.ids()) ==> no_dup(ids_of(f))) && has_left(o.0@, f, nodes) && ((forall|x: U256| #[trigger] nodes.contains(x) ==> !o.has(x)) ==> f == o.0@) by { lemma_left(o.0@, f, nodes, false); }
}
pub open spec fn has_left(o: Seq<NodeTime>, f: Seq<NodeTime>, nodes: Seq<U256>) -> bool { forall|x: U256| #[trigger] ids_of(f).contains(x) <==> ids_of(o).contains(x) && !nodes.contains(x) }
pub open spec fn has_grown(o: Seq<NodeTime>, f: Seq<NodeTime>, nodes: Seq<U256>) -> bool { forall|x: U256| #[trigger] ids_of(f).contains(x) <==> ids_of(o).contains(x) || nodes.contains(x) }
pub proof fn lemma_grown_all(o: Nodes, nodes: Seq<U256>)
    ensures forall|f: Seq<NodeTime>| #[trigger] grown(o.0@, f, nodes) ==> (no_dup(o.ids()) && no_dup(nodes) ==> no_dup(ids_of(f))) && has_grown(o.0@, f, nodes) && ((forall|x: U256| #[trigger] nodes.contains(x) ==> !o.has(x)) ==> f.len() == o.0@.len() + nodes.len()),
{
    assert forall|f: Seq<NodeTime>| #[trigger] grown(o.0@, f, nodes) implies (no_dup(o.ids()) && no_dup(nodes) ==> no_dup(ids_of(f))) && has_grown(o.0@, f, nodes) && ((forall|x: U256| #[trigger] nodes.contains(x) ==> !o.has(x)) ==> f.len() == o.0@.len() + nodes.len()) by { lemma_grown(o.0@, f, nodes); }
}
/// What is left of known without the ones in use.
pub proof fn lemma_unused(s: RandomStats)
    requires s.wf(),
    ensures ({ let u = part(part(s.known.0@, s.connected.ids(), false), s.connecting.ids(), false); u.len() == s.nfree() && no_dup(u) && forall|x: U256| #[trigger] u.contains(x) <==> s.free(x) }),
{
    let (k, a, b) = (s.known.0@, s.connected.ids(), s.connecting.ids());
    let p = part(k, a, false);
    assert forall|x: U256| #[trigger] a.contains(x) implies k.contains(x) by { assert(s.con(x)); assert(s.kno(x)); }
    lemma_count(k, a);
    lemma_part(k, a, false);
    assert forall|x: U256| #[trigger] b.contains(x) implies p.contains(x) by { assert(s.ing(x)); assert(s.kno(x)); assert(!s.con(x)); }
    lemma_count(p, b);
    lemma_part(p, b, false);
}

// ------------------------------------------------------------------ what the module does with a message
/// These nodes, and only these, are to be connected to.
pub open spec fn connects(out: Seq<InternOut>, ids: Seq<U256>) -> bool { out.len() == ids.len() && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]) == InternOut::Network(NetworkIn::Connect(ids[i])) }
/// New connections are asked for, to free nodes, until there are enough of them, or no more nodes.
pub open spec fn filled(n: &RandomStats, o: &RandomStats, out: Seq<InternOut>) -> bool {
    exists|c: Seq<U256>| connects(out, c) && #[trigger] n.chosen(o, c) && c.len() == min_of(max_of(0, (o.need() + 1) / 2 - o.total()), o.nfree())
}
/// At most one more, if there are less than needed.
pub open spec fn one_more(n: &RandomStats, o: &RandomStats, fill: u32, limit: u32, out: Seq<InternOut>) -> bool {
    exists|c: Seq<U256>| connects(out, c) && #[trigger] n.chosen(o, c) && c.len() == if fill + 1 >= limit && o.total() < o.need() { min_of(1, o.nfree()) } else { 0 }
}
/// The other modules get the list of the connected nodes.
pub open spec fn tells(out: Seq<InternOut>, s: &RandomStats) -> bool {
    &&& out.len() == 2
    &&& out[0] matches InternOut::Random(RandomOut::NodeIDsConnected(l)) && l.0@ == s.connected.ids()
    &&& out[1] matches InternOut::Random(RandomOut::NodeInfosConnected(v)) && infos_of(v@, s.infos@, s.connected.ids())
}
pub open spec fn tells_cuts(out: Seq<InternOut>, s: &RandomStats, x: U256) -> bool {
    out.len() == 3 && tells(out.take(2), s) && out[2] == InternOut::Network(NetworkIn::Disconnect(x))
}
pub open spec fn to(o: InternOut, dst: U256, msg: ModuleMessage) -> bool {
    o matches InternOut::Network(NetworkIn::MessageToNode(d, w)) && d == dst && packs(w, MODULE_NAME@, msg)
}
pub open spec fn same_lists(n: &RandomStats, o: &RandomStats) -> bool { n.known == o.known && n.infos == o.infos && n.connected.ids() == o.connected.ids() && n.connecting.ids() == o.connecting.ids() }
/// The list of the signalling server, without the node itself.
pub open spec fn listed(n: &RandomStats, o: &RandomStats, list: Seq<NodeInfo>, me: U256) -> bool {
    n.connected == o.connected && n.connecting == o.connecting && forall|x: U256| #[trigger] n.kno(x) <==> o.kno(x) || x != me && has_info(list, x)
}
}
//@include onebyone.rs
verus! {
impl Config {
//@fn intern <Config as Default>::default
//@ spec
    ensures res.fill_connected > 0, // [R01]
//@end
}
impl Intern {
    pub open spec fn wf(&self) -> bool { self.storage.wf() && self.fill < self.cfg.fill_connected }
    pub open spec fn rest(&self, o: &Self) -> bool { self.id == o.id && self.cfg == o.cfg && self.fill == o.fill }
    pub open spec fn did_mod(&self, o: &Self, id: U256, m: ModuleMessage, out: Seq<InternOut>) -> bool {
        self.rest(o) && match m {
            ModuleMessage::Module(w) => self.storage.joined(&o.storage, seq![id]) && out.len() == 1 && out[0] == InternOut::Random(RandomOut::NetworkWrapperFromNetwork(id, w)),
            ModuleMessage::DropConnection => exists|mid: RandomStats, b: Seq<InternOut>| #[trigger] filled(&self.storage, &mid, b) && mid.gone(&o.storage, seq![id]) && begins(out, InternOut::Network(NetworkIn::Disconnect(id)), b),
        }
    }
    pub open spec fn did_net(&self, o: &Self, m: NetworkOut, out: Seq<InternOut>) -> bool {
        match m {
            NetworkOut::MessageFromNode(id, w) => match unpacked(w) { Some(m) => self.did_mod(o, id, m, out), None => *self == *o && out.len() == 0 },
            NetworkOut::NodeListFromWS(list) => self.rest(o) && exists|mid: RandomStats| #[trigger] filled(&self.storage, &mid, out) && listed(&mid, &o.storage, list@, o.id),
            NetworkOut::Connected(id) => self.rest(o) && self.storage.joined(&o.storage, seq![id]) && tells(out, &self.storage),
            NetworkOut::Disconnected(id) => self.rest(o) && exists|mid: RandomStats, a: Seq<InternOut>, b: Seq<InternOut>| #![trigger filled(&self.storage, &mid, a), tells(b, &self.storage)] mid.gone(&o.storage, seq![id]) && filled(&self.storage, &mid, a) && tells(b, &self.storage) && out == a + b,
            _ => *self == *o && out.len() == 0,
        }
    }
    pub open spec fn did_rand(&self, o: &Self, m: RandomIn, out: Seq<InternOut>) -> bool {
        self.rest(o) && match m {
            RandomIn::NodeFailure(id) => exists|mid: RandomStats, a: Seq<InternOut>, b: Seq<InternOut>| #![trigger filled(&self.storage, &mid, a), tells_cuts(b, &self.storage, id)] mid.gone(&o.storage, seq![id]) && filled(&self.storage, &mid, a) && tells_cuts(b, &self.storage, id) && out == a + b,
            RandomIn::NetworkWrapperToNetwork(dst, w) => if o.storage.con(dst) { self.storage == o.storage && out.len() == 1 && to(out[0], dst, ModuleMessage::Module(w)) } else { self.storage.gone(&o.storage, seq![dst]) && tells(out, &self.storage) },
        }
    }
    pub open spec fn did_tick(&self, o: &Self, out: Seq<InternOut>) -> bool {
        self.id == o.id && self.cfg == o.cfg && exists|t: RandomStats, m: RandomStats, a: Seq<InternOut>, b: Seq<InternOut>, c: Seq<InternOut>| #![trigger filled(&m, &t, a), one_more(&self.storage, &m, o.fill, o.cfg.fill_connected, b), tells(c, &self.storage)]
            same_lists(&t, &o.storage) && filled(&m, &t, a) && one_more(&self.storage, &m, o.fill, o.cfg.fill_connected, b) && tells(c, &self.storage) && out == a + b + c
    }
    pub open spec fn did(&self, o: &Self, m: InternIn, out: Seq<InternOut>) -> bool {
        match m { InternIn::Tick => self.did_tick(o, out), InternIn::Random(m) => self.did_rand(o, m, out), InternIn::Network(m) => self.did_net(o, m, out) }
    }
//@fn intern Intern::create_network_msg
//@ spec
    ensures res@.len() == 1 && to(res@[0], dst, msg), // [R03]
//@ closure 0 -> (r: Vec<InternOut>) ensures r@.len() == 1 && r@[0] == InternOut::Network(NetworkIn::MessageToNode(dst, msg_nw))
//@end
//@fn intern Intern::new_connection
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rest(old(self)), // [R01]
        filled(&final(self).storage, &old(self).storage, res@), // [R01] [R02]
//@ closure 0 -> (r: InternOut) ensures r == InternOut::Network(NetworkIn::Connect(n))
//@ sub /\.map\(\|n\|/ => /.map(|n: U256|/
//@end
//@fn intern Intern::fill_connection
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).id == old(self).id, final(self).cfg == old(self).cfg, // [R01]
        one_more(&final(self).storage, &old(self).storage, old(self).fill, old(self).cfg.fill_connected, res@), // [R01] [R02]
//@ entry
    proof { assert(!Seq::<U256>::empty().contains(self.id)); assert(self.storage.chosen(&self.storage, Seq::empty())); }
//@ closure 0 -> (r: InternOut) ensures r == InternOut::Network(NetworkIn::Connect(n))
//@end
//@fn intern Intern::update
//@ spec
    ensures final(self).rest(old(self)), final(self).storage == old(self).storage, tells(res@, &final(self).storage), // [R03]
//@ sub /self\.tx\.dup\(\)\.map\(\|tx\| \{\s*tx\.send\(self\.storage\.dup\(\)\)\s*\.is_err\(\)\s*\.vx_then\(\|\| self\.tx = None\)\s*\}\);/ => /vx_tell(&mut self.tx, self.storage.dup());/
//@end
//@fn intern Intern::connected_msg
//@ spec
    ensures tells(res@, &self.storage), // [R03]
//@end
//@fn intern Intern::disconnect_msg
//@ spec
    ensures tells_cuts(res@, &self.storage, dst), // [R03]
//@end
//@fn intern Intern::network_msg
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [R01]
        final(self).did_mod(old(self), id, msg, res@), // [R02] [R03]
//@end
//@fn intern Intern::msg_net
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [R01]
        final(self).did_net(old(self), msg, res@), // [R02] [R03]
//@ sub /msg_nw\s*\.unwrap_yaml::<ModuleMessage>\(MODULE_NAME\)\s*\.map\(\|msg_mod\| ([\s\S]*?)\)\s*\.vx_unwrap_or\(vec!\[\]\)/ => /match msg_nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) { Some(msg_mod) => \1, None => vec![] }/
//@ closure 1 -> (r: bool) ensures r == (info_id(*ni) != self.id)
//@end
//@fn intern Intern::msg_rand
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [R01]
        final(self).did_rand(old(self), msg, res@), // [R02] [R03]
//@end
//@fn intern Intern::msg_tick
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [R01]
        final(self).did_tick(old(self), res@), // [R02] [R03]
//@ entry
    proof { vx_young(&self.storage); }
//@end
//@fn intern <Intern as SubsystemHandler<InternIn,InternOut>>::messages
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).id == old(self).id, // [R01]
        exists|h: Seq<Intern>, outs: Seq<Vec<InternOut>>| #[trigger] one_by_one(h, outs, msgs@) && h[0] == *old(self) && h.last() == *final(self) && res@ == flat_of(outs), // [R02] [R03]
//@ sub ! /msgs\.vx_into_iter\(\)\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*\.vx_collect\(\)/ => /let ghost all = msgs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(msgs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, self.wf(), self.id == old(self).id, one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out/
//@end
//@fn intern Intern::new
//@ spec
    ensures res.0.id == id, res.0.wf(), res.0.storage.known.0@.len() == 0, res.0.storage.connected.0@.len() == 0, res.0.storage.connecting.0@.len() == 0, // [R01]
//@ sub /watch::channel\(/ => /vx_channel(/
//@ sub /RandomStats::default\(\)/ => /vx_default()/
//@ sub /watch::Receiver<RandomStats>/ => /VxReceiver/
//@end
}
/// Only nodes which are known, and neither connected nor about to be, are asked for, each one once, and they are about to be afterwards.
pub proof fn lemma_asked_once(n: &RandomStats, o: &RandomStats, out: Seq<InternOut>, c: Seq<U256>)
    requires connects(out, c), n.chosen(o, c),
    ensures forall|i: int| #![trigger out[i]] 0 <= i < out.len() ==> (out[i] matches InternOut::Network(NetworkIn::Connect(x)) && o.free(x) && n.ing(x)), // [R01]
        forall|i: int, j: int| #![trigger out[i], out[j]] 0 <= i < j < out.len() ==> out[i] != out[j], // [R01]
{
    assert forall|i: int| #![trigger out[i]] 0 <= i < out.len() implies (out[i] matches InternOut::Network(NetworkIn::Connect(x)) && o.free(x) && n.ing(x)) by { assert(c.contains(c[i])); assert(n.ing(c[i])); }
}
/// Of its own, the module never goes beyond what is needed, and it always asks for half of it if it can.
pub proof fn lemma_enough(n: &RandomStats, o: &RandomStats, out: Seq<InternOut>)
    requires filled(n, o, out), o.wf(),
    ensures n.total() <= max_of(o.total(), (o.need() + 1) / 2), n.total() >= (o.need() + 1) / 2 || n.nfree() == 0, n.need() == o.need(), // [R02]
{ lemma_unused(*o); }
pub proof fn lemma_never_more(n: &RandomStats, o: &RandomStats, fill: u32, limit: u32, out: Seq<InternOut>)
    requires one_more(n, o, fill, limit, out), o.wf(),
    ensures n.total() <= max_of(o.total(), o.need()), fill + 1 >= limit && o.nfree() > 0 && o.total() < o.need() ==> out.len() == 1, n.need() == o.need(), // [R02]
{ lemma_unused(*o); }
pub open spec fn begins(out: Seq<InternOut>, x: InternOut, b: Seq<InternOut>) -> bool { out.len() == b.len() + 1 && out[0] == x && forall|i: int| 0 <= i < b.len() ==> #[trigger] out[i + 1] == b[i] }
pub open spec fn unpacked(w: NetworkWrapper) -> Option<ModuleMessage> { if w.module@ == MODULE_NAME@ { unyaml::<ModuleMessage>(w.msg@) } else { None } }
}
fn main() {}
