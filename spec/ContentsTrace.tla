--------------------------- MODULE ContentsTrace ---------------------------
(* Answers of the real gamedefs, case by case, against Contents.tla.  Native *)
(* values of Quake are numbers (1: refused), of Quake II sets of bits ({-1}: *)
(* refused).                                                                 *)
EXTENDS Contents, IOUtils, Json, TLC
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
SetOf(q) == {q[k] : k \in DOMAIN q}
VARIABLES ci, i
Init == ci \in DOMAIN Cases /\ i = 0
Next == i = 0 /\ i' = 1 /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, i>>
C == Cases[ci]
O == C.out
g == C.game
a == SetOf(C.a)
b == SetOf(C.b)
c == SetOf(C.c)
surf == SetOf(C.surf)
surf2 == SetOf(C.surf2)
Is(f, v) == O[f] = v \/ Print(<<"answer", f, "is", O[f], "instead of", v>>, FALSE)
IsSet(f, v) == SetOf(O[f]) = v \/ Print(<<"answer", f, "is", O[f], "instead of", v>>, FALSE)
Native == i = 1 =>
  IF g = "q1" THEN /\ Is("native", ToNative1(a))
                   /\ Is("back", IF FromNative1(C.native) = Refused THEN 1 ELSE C.native)
                   /\ IsSet("from", FromNative1(C.native))
  ELSE /\ IsSet("native", ToNative2(a))
       /\ IsSet("back", SetOf(C.native))
       /\ IsSet("from", FromNative2(SetOf(C.native)))
Predicates == i = 1 =>
  /\ Is("anysolid", AnySolid(a)) /\ Is("solid", Structural(a)) /\ Is("sky", IsSky(g, a)) /\ Is("liquid", IsLiquid(g, a)) /\ Is("empty", IsEmpty(g, a))
  /\ Is("clip", IsClip(g, a)) /\ Is("origin", ORIGIN \in a) /\ Is("detail", IsDetail(a)) /\ Is("dsolid", DetailSolid(a)) /\ Is("dwall", DetailWall(g, a))
  /\ Is("dfence", DetailFence(g, a)) /\ Is("dillusionary", DetailIllusionary(g, a)) /\ Is("fence", DetailFence(g, a) \/ DetailIllusionary(g, a))
  /\ Is("opaque0", Opaque(g, a, FALSE)) /\ Is("opaque1", Opaque(g, a, TRUE)) /\ Is("seals", Seals(g, a))
  /\ Is("valid0", Valid(g, a, FALSE)) /\ Is("valid1", Valid(g, a, TRUE))
  /\ Is("index", IF Strongest(a) = {} THEN -1 ELSE Min(Strongest(a))) /\ IsSet("strongest", Strongest(a)) /\ IsSet("made", a)
  /\ Is("equal", a = b) /\ Is("cequal", a = b) /\ Is("types", TypesEqual(g, a, b)) /\ Is("clipsame", ClipsSame(g, a, b))
Making == i = 1 =>
  /\ IsSet("dk_solid", MakeDetail(g, "solid", a)) /\ IsSet("dk_wall", MakeDetail(g, "wall", a)) /\ IsSet("dk_fence", MakeDetail(g, "fence", a))
  /\ IsSet("dk_illusionary", MakeDetail(g, "illusionary", a)) /\ IsSet("nodetail", a \ {DETAIL}) /\ IsSet("setdetail", a \cup {DETAIL})
  /\ IsSet("emptyc", {}) /\ IsSet("solidc", {SOLID})
  /\ IsSet("mirrored", SetMirror(a, C.mir)) /\ Is("mirror", C.mir) /\ IsSet("clips", SetClips(a, C.cl))
  /\ Is("clipsq", IF NOCLIPSAME \in a \/ C.cl = 1 THEN 1 ELSE 0)
  /\ IsSet("leaf", Remap(g, a, TRUE)) /\ IsSet("brush", Remap(g, a, FALSE))
  /\ IsSet("face", FaceContents(g, C.class, surf, a))
  /\ IsSet("display", IF a = {} THEN {"EMPTY"} ELSE {Names[k + 1] : k \in a})
Mixing == i = 1 => /\ IsSet("cluster", Cluster(a, b)) /\ IsSet("ab", Combine(g, a, b)) /\ IsSet("ba", Combine(g, b, a))
                   /\ IsSet("ab_c", Combine(g, Combine(g, a, b), c)) /\ IsSet("a_bc", Combine(g, a, Combine(g, b, c)))
                   /\ SetOf(O.ab_c) = SetOf(O.a_bc)
Sight == i = 1 => /\ Is("see0", SeeThrough(g, a, b, FALSE)) /\ Is("see1", SeeThrough(g, a, b, TRUE))
                  /\ Is("ees0", SeeThrough(g, b, a, FALSE)) /\ Is("ees1", SeeThrough(g, b, a, TRUE))
FacesOfPortals == i = 1 =>
  LET pv == PortalVisible(g, a, b)
  IN /\ IsSet("pv", pv) /\ IsSet("vp", pv)
     /\ Is("front_a", GeneratesFace(g, pv, a, FALSE)) /\ Is("back_a", GeneratesFace(g, pv, a, TRUE))
     /\ Is("front_b", GeneratesFace(g, pv, b, FALSE)) /\ Is("back_b", GeneratesFace(g, pv, b, TRUE))
     /\ Is("front_c", GeneratesFace(g, pv, c, FALSE)) /\ Is("back_c", GeneratesFace(g, pv, c, TRUE))
Surfaces == i = 1 =>
  /\ Is("lit00", Lightmapped(g, surf, C.texclass, FALSE, FALSE)) /\ Is("lit01", Lightmapped(g, surf, C.texclass, FALSE, TRUE))
  /\ Is("lit10", Lightmapped(g, surf, C.texclass, TRUE, FALSE)) /\ Is("lit11", Lightmapped(g, surf, C.texclass, TRUE, TRUE))
  /\ Is("emissive", Emissive(g, C.texclass)) /\ Is("subdivided", Subdivided(g, surf)) /\ Is("surfvalid", SurfValid(g, surf))
  /\ Is("phong", MayPhong(g, surf, surf2)) /\ Is("hintskip", HintSkip(g, surf, C.ishint))
\* the words of texture meta data: the names of the native flags
SurfWords == <<"LIGHT", "SLICK", "SKY", "WARP", "TRANS33", "TRANS66", "FLOWING", "NODRAW", "HINT">>
ContWords == <<"SOLID", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST">>
HighWords == <<"AREAPORTAL", "PLAYERCLIP", "MONSTERCLIP", "CURRENT_0", "CURRENT_90", "CURRENT_180", "CURRENT_270", "CURRENT_UP", "CURRENT_DOWN", "ORIGIN",
               "MONSTER", "DEADMONSTER", "DETAIL", "TRANSLUCENT", "LADDER">>
At(w, s, k) == {n + k - 1 : n \in {m \in DOMAIN s : s[m] = w}}
Words == i = 1 =>
  IF g = "q1" THEN IsSet("cword", {}) /\ IsSet("sword", IF C.word = "SPECIAL" THEN {0} ELSE {})
  ELSE /\ IsSet("cword", At(C.word, ContWords, 0) \cup At(C.word, HighWords, 15) \cup (IF C.wordbit >= 0 /\ C.wordbit \in (7..14) \cup {30, 31} THEN {C.wordbit} ELSE {}))
       /\ IsSet("sword", At(C.word, SurfWords, 0) \cup (IF C.word = "ALPHATEST" THEN {25} ELSE {}) \cup (IF C.wordbit \in 9..24 THEN {C.wordbit} ELSE {}))
==============================================================================
