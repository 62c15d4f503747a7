@@def COLLECT
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && exists|b: Seq<u8>| value.shows(b) && #[trigger] is_strenc(added(old(self).output.view(), final(self).output.view()), b), // #C19 #C28
    r is Ok ==> item(added(old(self).output.view(), final(self).output.view())), // #C19 #C20
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@impl Write for StringLenCounter
  open spec fn f_pre(&self) -> bool { true }
  open spec fn f_reach(&self, n: Self, b: Seq<u8>, ok: bool) -> bool { ok ==> n.0 == self.0 + b.len() }
  proof fn f_refl(&self) { }
  proof fn f_trans(&self, m: Self, n: Self, a: Seq<u8>, b: Seq<u8>, ok: bool) { }
@@fn Write for StringLenCounter::write_str [C19,C09]
@@impl Write for StringCollector
  open spec fn f_pre(&self) -> bool { self.output.alive() }
  #[verifier::prophetic] open spec fn f_reach(&self, n: Self, b: Seq<u8>, ok: bool) -> bool {
    ext(self.output.view(), n.output.view()) && *final(n.output) == *final(self.output) && (ok ==> n.output.alive() && added(self.output.view(), n.output.view()) == b && n.len == self.len - b.len())
  }
  proof fn f_refl(&self) { lemma_ext_refl(self.output.view()); }
  proof fn f_trans(&self, m: Self, n: Self, a: Seq<u8>, b: Seq<u8>, ok: bool) { lemma_ext2(self.output.view(), m.output.view(), n.output.view()); }
@@fn Write for StringCollector::write_str [C19,C09]
@@fn StringCollector::new [C19]
  ensures r.len == len, *r.output == *old(output), *final(r.output) == *final(output), // #C19
@@at before "let mut col = StringCollector" :: Serializer for &mut CompactSerializer::collect_str
  let ghost mid = self.output.view();
@@at tail :: Serializer for &mut CompactSerializer::collect_str
  proof { if vp_r is Ok {
    let w0 = old(self).output.view(); let w = self.output.view(); let h = added(w0, mid);
    assert forall|b: Seq<u8>| #[trigger] value.shows(b) && ext(mid, w) && added(mid, w) == b && b.len() == len implies is_strenc(added(w0, w), b) by {
      let a = added(w0, w); lemma_ext2(w0, mid, w); assert(a =~= h + b); assert(a.take(h.len() as int) =~= h); assert(a.skip(h.len() as int) =~= b);
    }
  } }
@@at before "let mut col = StringCollector" :: Serializer for &mut StructMapIdxSerializer::collect_str
  let ghost mid = self.output.view();
@@at tail :: Serializer for &mut StructMapIdxSerializer::collect_str
  proof { if vp_r is Ok {
    let w0 = old(self).output.view(); let w = self.output.view(); let h = added(w0, mid);
    assert forall|b: Seq<u8>| #[trigger] value.shows(b) && ext(mid, w) && added(mid, w) == b && b.len() == len implies is_strenc(added(w0, w), b) by {
      let a = added(w0, w); lemma_ext2(w0, mid, w); assert(a =~= h + b); assert(a.take(h.len() as int) =~= h); assert(a.skip(h.len() as int) =~= b);
    }
  } }
@@at before "let mut col = StringCollector" :: Serializer for &mut StructMapStrSerializer::collect_str
  let ghost mid = self.output.view();
@@at tail :: Serializer for &mut StructMapStrSerializer::collect_str
  proof { if vp_r is Ok {
    let w0 = old(self).output.view(); let w = self.output.view(); let h = added(w0, mid);
    assert forall|b: Seq<u8>| #[trigger] value.shows(b) && ext(mid, w) && added(mid, w) == b && b.len() == len implies is_strenc(added(w0, w), b) by {
      let a = added(w0, w); lemma_ext2(w0, mid, w); assert(a =~= h + b); assert(a.take(h.len() as int) =~= h); assert(a.skip(h.len() as int) =~= b);
    }
  } }
@@include msgpack_ser.body
