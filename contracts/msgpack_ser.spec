@@def COLLECT
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && exists|b: Seq<u8>| value.shows(b) && #[trigger] is_strenc(added(old(self).output.view(), final(self).output.view()), b), // #C19 #C28
    r is Ok ==> item(added(old(self).output.view(), final(self).output.view())), // #C19 #C20
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@include msgpack_ser.body
@@fn to_vec_compact [C20,C28]
  ensures r is Ok ==> item(r->Ok_0@) && ser_text(value, 0, r->Ok_0@), // #C20 #C28
@@at end :: to_vec_compact
proof { assert(vec@ =~= added(Seq::<u8>::empty(), vec@)) by { reveal(added); } }
@@fn to_vec [C20,C28]
  ensures r is Ok ==> item(r->Ok_0@) && ser_text(value, 1, r->Ok_0@), // #C20 #C28
@@at end :: to_vec
proof { assert(vec@ =~= added(Seq::<u8>::empty(), vec@)) by { reveal(added); } }
@@fn to_vec_named [C20,C28]
  ensures r is Ok ==> item(r->Ok_0@) && ser_text(value, 2, r->Ok_0@), // #C20 #C28
@@at end :: to_vec_named
proof { assert(vec@ =~= added(Seq::<u8>::empty(), vec@)) by { reveal(added); } }
