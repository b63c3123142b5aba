-- The statements assumed as `axiom_assoc` in specs/ecmath.vt and `axiom_p256_prime_order` in specs/dh.vt (at the end of this file).
-- The first, for the same definitions: the chord-and-tangent law on
-- y^2 = x^3 + a x + b over the integers modulo a prime m > 3 is associative if 4 a^3 + 27 b^2 is not zero modulo m.
import Mathlib.AlgebraicGeometry.EllipticCurve.Affine.Point
import Mathlib.Tactic

set_option linter.unusedSectionVars false

def cg (m a b : ℤ) : Prop := a % m = b % m
def isPrime (m : ℤ) : Prop := m > 1 ∧ ∀ d : ℤ, 1 < d → d < m → m % d ≠ 0
def isInv (m z i : ℤ) : Prop := 0 ≤ i ∧ i < m ∧ (z * i) % m = 1
noncomputable def finv (m z : ℤ) : ℤ := Classical.epsilon (fun i => isInv m z i)

inductive Pt
  | Inf
  | Aff (x y : ℤ)

def cubic (a b x : ℤ) : ℤ := x * x * x + a * x + b
def ecOn (m a b : ℤ) : Pt → Prop
  | .Inf => True
  | .Aff x y => 0 ≤ x ∧ x < m ∧ 0 ≤ y ∧ y < m ∧ (y * y) % m = cubic a b x % m
noncomputable def ecSlope (m a x1 y1 x2 y2 : ℤ) : ℤ :=
  if x1 = x2 then ((3 * (x1 * x1) + a) * finv m (2 * y1)) % m else ((y2 - y1) * finv m (x2 - x1)) % m
def ecThird (m l x1 y1 x2 : ℤ) : Pt :=
  let x3 := (l * l - x1 - x2) % m
  .Aff x3 ((l * (x1 - x3) - y1) % m)
noncomputable def ecAdd (m a : ℤ) : Pt → Pt → Pt
  | .Inf, q => q
  | p, .Inf => p
  | .Aff x1 y1, .Aff x2 y2 =>
    if x1 = x2 ∧ (y1 + y2) % m = 0 then .Inf else ecThird m (ecSlope m a x1 y1 x2 y2) x1 y1 x2
def ecSmooth (m a b : ℤ) : Prop := ¬ cg m (4 * (a * a * a) + 27 * (b * b)) 0

section
variable {p : ℕ} [Fact p.Prime]

theorem zc (u v : ℤ) : ((u : ZMod p) = (v : ZMod p)) ↔ u % (p : ℤ) = v % (p : ℤ) :=
  ZMod.intCast_eq_intCast_iff' u v p

theorem zmodred (u : ℤ) : (((u % (p : ℤ)) : ℤ) : ZMod p) = (u : ZMod p) := by
  rw [zc]; exact Int.emod_emod_of_dvd _ dvd_rfl

theorem finv_spec (z : ℤ) (h : (z : ZMod p) ≠ 0) : ((finv p z : ℤ) : ZMod p) = (z : ZMod p)⁻¹ := by
  have hp : 1 < p := (Fact.out : p.Prime).one_lt
  have ex : ∃ i, isInv p z i := by
    refine ⟨(((z : ZMod p)⁻¹).val : ℤ), by positivity, by exact_mod_cast ZMod.val_lt _, ?_⟩
    have : ((z * (((z : ZMod p)⁻¹).val : ℤ) : ℤ) : ZMod p) = ((1 : ℤ) : ZMod p) := by
      push_cast; rw [ZMod.natCast_zmod_val]; exact mul_inv_cancel₀ h
    rw [zc] at this
    rw [this]; exact Int.emod_eq_of_lt (by norm_num) (by exact_mod_cast hp)
  have hs : isInv p z (finv p z) := Classical.epsilon_spec ex
  have : ((z * finv p z : ℤ) : ZMod p) = ((1 : ℤ) : ZMod p) := by
    rw [zc, hs.2.2]; exact (Int.emod_eq_of_lt (by norm_num) (by exact_mod_cast hp)).symm
  push_cast at this
  exact eq_inv_of_mul_eq_one_right this

abbrev W (p : ℕ) (a b : ℤ) : WeierstrassCurve.Affine (ZMod p) :=
  { a₁ := 0, a₂ := 0, a₃ := 0, a₄ := (a : ZMod p), a₆ := (b : ZMod p) }

open WeierstrassCurve.Affine

/-- a point with canonical coordinates stands for a point of Mathlib's curve -/
def rep (p : ℕ) [Fact p.Prime] (a b : ℤ) : Pt → (W p a b).Point → Prop
  | .Inf, P => P = 0
  | .Aff x y, P => 0 ≤ x ∧ x < p ∧ 0 ≤ y ∧ y < p ∧ ∃ h, P = Point.some (x : ZMod p) (y : ZMod p) h

theorem range_inj (u v : ℤ) (h1 : 0 ≤ u) (h2 : u < p) (h3 : 0 ≤ v) (h4 : v < p)
    (h : (u : ZMod p) = (v : ZMod p)) : u = v := by
  rw [zc, Int.emod_eq_of_lt h1 h2, Int.emod_eq_of_lt h3 h4] at h; exact h

theorem rep_inj (a b : ℤ) (s t : Pt) (P : (W p a b).Point) (h1 : rep p a b s P) (h2 : rep p a b t P) : s = t := by
  cases s with
  | Inf => cases t with
    | Inf => rfl
    | Aff x y => simp only [rep] at h1 h2; obtain ⟨_, _, _, _, h, e⟩ := h2; rw [h1] at e; exact absurd e.symm (Point.some_ne_zero h)
  | Aff x y => cases t with
    | Inf => simp only [rep] at h1 h2; obtain ⟨_, _, _, _, h, e⟩ := h1; rw [h2] at e; exact absurd e.symm (Point.some_ne_zero h)
    | Aff u v =>
      simp only [rep] at h1 h2
      obtain ⟨a1, a2, a3, a4, h, e⟩ := h1
      obtain ⟨b1, b2, b3, b4, h', e'⟩ := h2
      rw [e] at e'
      injection e' with ex ey
      rw [range_inj x u a1 a2 b1 b2 ex, range_inj y v a3 a4 b3 b4 ey]

theorem rep_ex (a b : ℤ) (h3 : 3 < p) (hs : ecSmooth p a b) (s : Pt) (h : ecOn p a b s) : ∃ P, rep p a b s P := by
  cases s with
  | Inf => exact ⟨0, rfl⟩
  | Aff x y =>
    obtain ⟨h1, h2, h3', h4, h5⟩ := h
    have hp := (Fact.out : p.Prime)
    have two : ((16 : ℕ) : ZMod p) ≠ 0 := by
      intro h; rw [ZMod.natCast_eq_zero_iff] at h
      have : p ∣ 2 := hp.dvd_of_dvd_pow (by simpa using h : p ∣ 2 ^ 4)
      have := Nat.le_of_dvd (by norm_num) this; omega
    have hd : (W p a b).Δ ≠ 0 := by
      have hs' : ((4 * (a * a * a) + 27 * (b * b) : ℤ) : ZMod p) ≠ ((0 : ℤ) : ZMod p) := by
        rw [Ne, zc]; exact hs
      push_cast at hs' two
      intro h0
      have e : (W p a b).Δ = -16 * (4 * ((a : ZMod p) * a * a) + 27 * (b * b)) := by
        simp only [WeierstrassCurve.Δ, WeierstrassCurve.b₂, WeierstrassCurve.b₄, WeierstrassCurve.b₆, WeierstrassCurve.b₈]; ring
      rw [e] at h0
      rcases mul_eq_zero.1 h0 with h0 | h0
      · exact two (by linear_combination -h0)
      · exact hs' h0
    have eq : (W p a b).Equation (x : ZMod p) (y : ZMod p) := by
      rw [equation_iff]
      have : ((y * y : ℤ) : ZMod p) = ((cubic a b x : ℤ) : ZMod p) := by rw [zc]; exact h5
      unfold cubic at this; push_cast at this
      linear_combination this
    exact ⟨Point.some _ _ ((equation_iff_nonsingular_of_Δ_ne_zero hd).1 eq), h1, h2, h3', h4, _, rfl⟩

theorem some_congr (a b : ℤ) (x y u v : ZMod p) (h : (W p a b).Nonsingular x y) (ex : x = u) (ey : y = v) :
    ∃ h' : (W p a b).Nonsingular u v, Point.some x y h = Point.some u v h' := by subst ex; subst ey; exact ⟨h, rfl⟩

theorem rep_add (a b : ℤ) (h3 : 3 < p) (s t : Pt) (P Q : (W p a b).Point) (h1 : rep p a b s P) (h2 : rep p a b t Q) :
    rep p a b (ecAdd p a s t) (P + Q) := by
  have hp := (Fact.out : p.Prime)
  have hp0 : (0 : ℤ) < p := by exact_mod_cast hp.pos
  cases s with
  | Inf => simp only [rep] at h1; subst h1; simpa [ecAdd] using h2
  | Aff x1 y1 => cases t with
    | Inf => simp only [rep] at h2; subst h2; simpa [ecAdd] using h1
    | Aff x2 y2 =>
      simp only [rep] at h1 h2
      obtain ⟨a1, a2, a3, a4, h, e⟩ := h1
      obtain ⟨b1, b2, b3, b4, h', e'⟩ := h2
      subst e; subst e'
      have key : (x1 = x2 ∧ (y1 + y2) % (p : ℤ) = 0) ↔
          ((x1 : ZMod p) = x2 ∧ (y1 : ZMod p) = (W p a b).negY x2 y2) := by
        have k2 : ((y1 + y2) % (p : ℤ) = 0) ↔ ((y1 : ZMod p) = (W p a b).negY x2 y2) := by
          rw [← Int.zero_emod (p : ℤ), ← zc]; push_cast
          simp only [negY, zero_mul, sub_zero]; exact add_eq_zero_iff_eq_neg
        rw [k2]
        constructor
        · rintro ⟨e, f⟩; exact ⟨by rw [e], f⟩
        · rintro ⟨e, f⟩; exact ⟨range_inj _ _ a1 a2 b1 b2 e, f⟩
      by_cases c : x1 = x2 ∧ (y1 + y2) % (p : ℤ) = 0
      · simp only [ecAdd, if_pos c, rep]
        have c' := key.1 c
        exact Point.add_of_Y_eq c'.1 c'.2
      · simp only [ecAdd, if_neg c, ecThird, rep]
        have c' : ¬ ((x1 : ZMod p) = x2 ∧ (y1 : ZMod p) = (W p a b).negY x2 y2) := fun k => c (key.2 k)
        refine ⟨Int.emod_nonneg _ hp0.ne', Int.emod_lt_of_pos _ hp0, Int.emod_nonneg _ hp0.ne', Int.emod_lt_of_pos _ hp0, ?_⟩
        rw [Point.add_some c']
        have sl : ((ecSlope p a x1 y1 x2 y2 : ℤ) : ZMod p) = (W p a b).slope x1 x2 y1 y2 := by
          unfold ecSlope
          by_cases d : x1 = x2
          · subst d
            have c2 : (y1 : ZMod p) ≠ (W p a b).negY x1 y2 := fun k => c' ⟨rfl, k⟩
            have ey : (y1 : ZMod p) = y2 := Y_eq_of_Y_ne h.1 h'.1 rfl c2
            have nz : ((2 * y1 : ℤ) : ZMod p) ≠ 0 := by
              intro k; apply c2; rw [← ey]; push_cast at k
              simp only [negY, zero_mul, sub_zero]; linear_combination k
            rw [if_pos rfl, zmodred, slope_of_Y_ne rfl c2]
            push_cast
            rw [finv_spec _ nz]
            simp only [negY]; push_cast
            rw [div_eq_mul_inv]; congr 1 <;> [ring; (congr 1; ring)]
          · have d' : (x1 : ZMod p) ≠ x2 := fun k => d (range_inj _ _ a1 a2 b1 b2 k)
            have nz : ((x2 - x1 : ℤ) : ZMod p) ≠ 0 := by push_cast; exact sub_ne_zero.2 (Ne.symm d')
            rw [if_neg d, zmodred, slope_of_X_ne d']
            push_cast
            rw [finv_spec _ nz]; push_cast
            rw [← neg_sub (y2 : ZMod p) y1, ← neg_sub (x2 : ZMod p) x1, neg_div_neg_eq, div_eq_mul_inv]
        apply some_congr
        · rw [zmodred]; push_cast; rw [sl]; simp only [addX]; ring
        · rw [zmodred]; push_cast; rw [sl]; simp only [addY, negAddY, negY, addX]; ring
end

theorem isPrime_nat (m : ℤ) (h : isPrime m) : ∃ p : ℕ, p.Prime ∧ m = p := by
  obtain ⟨h1, h2⟩ := h
  lift m to ℕ using by omega
  refine ⟨m, ?_, rfl⟩
  rw [Nat.prime_def_lt']
  refine ⟨by omega, fun d hd hlt hdvd => h2 d (by omega) (by omega) ?_⟩
  exact Int.emod_eq_zero_of_dvd (by exact_mod_cast hdvd)

theorem axiom_assoc (m a b : ℤ) (s t u : Pt) (hm : isPrime m) (h3 : m > 3) (hs : ecSmooth m a b)
    (h1 : ecOn m a b s) (h2 : ecOn m a b t) (h4 : ecOn m a b u) :
    ecAdd m a (ecAdd m a s t) u = ecAdd m a s (ecAdd m a t u) := by
  obtain ⟨p, hp, rfl⟩ := isPrime_nat m hm
  have : Fact p.Prime := ⟨hp⟩
  have h3' : 3 < p := by omega
  obtain ⟨S, hS⟩ := rep_ex a b h3' hs s h1
  obtain ⟨T, hT⟩ := rep_ex a b h3' hs t h2
  obtain ⟨U, hU⟩ := rep_ex a b h3' hs u h4
  have l := rep_add a b h3' _ _ _ _ (rep_add a b h3' _ _ _ _ hS hT) hU
  have r := rep_add a b h3' _ _ _ _ hS (rep_add a b h3' _ _ _ _ hT hU)
  rw [add_assoc] at l
  exact rep_inj a b _ _ _ l r
#print axioms axiom_assoc

def cubicPowers : List (Bool × ℕ × ℕ × ℕ) := [
  (true, 0, 1, 0),
  (true, 74733725485204106633371317169360305120971702399296588640698374994827630452660, 3, 0),
  (true, 93643083315055715886854619777204878438314604517217726788617218409113184804185, 54302614891805799069845202603916957238709300290449041439536091560547796457726, 101026085280155893512135562167939110135571784149908589257589356042364489154107),
  (true, 36439535528758758141532552987330138953034401375356176422954193176271770500709, 10877277919947757422429936526627854800509942959705347820321755590884901182319, 65239601784975002748165819255575053637367000230453584658189386017775417574575),
  (true, 27820567111882281738249597968306784875395862532730207346017839200828168573926, 61074820315524143529884829160815548486871455596381172095309013825496122508444, 42440091207392482398272444221774725788385610556811125824879970309437243253533),
  (true, 4512389541191727008619005565696629542814334596057814053145474797322298226836, 90748822617340255939558426440516099124468037705769575024906040031865464380617, 89382092011687706992684694151888021910795661485690087388762577788272443267752),
  (true, 68027755083370075278601730838490464118738709121738787231306182502307362900286, 40227285155951036303719163156651536340608991847695023707851696354920223716012, 33743194189673823846266875024354175395634280061969644171566818648626653102633),
  (true, 72067547828411066811684053116917579324940365430533458677703346267935453803724, 111569344436066858518990851754369575779853098052329101002910960298516617419160, 24372728836017070423351602918485212937126083855396704355414535241052091640713),
  (true, 64556011314209551010337037980331409781517468123058790775152015393952094997699, 103229107486264464746427997649417508989051998988999949928260941546935990361746, 113504833852707185082605400780137386815594713312324468814104178387319565442294),
  (true, 90868810045490745698482533227549250792420046018838739775689447800364263694151, 49418863190342106179677800122137433196519473288244840884611372406392325593950, 25438450692526272104595846350371361249461475544692174538987937915754478988462),
  (true, 26136620925769739426207084944080133538842919393953349976790192833388214701219, 66179648737541580986059562281988466612938567698133384062595850106326308318613, 63582314185115663381346588155323009093058565037152934463586227476309087358690),
  (true, 95507401770852838786990145429076156337385104286165089425853800519237960514967, 108508268203507007355638973367094824944136356105169634094119707299225035366037, 89658540333127275713772004566662624772849125785235469451437955619711236405857),
  (true, 71871698253730983797402012144254917319262998621799450979607529289664646678891, 75898475013626421170331904974774810332585620152386095977190833336509490753955, 7373726931061058870148889662136793197881317528360160970546350254114784853892),
  (true, 66428088274234473944639812914639147384898190690105074294875562545761240274803, 1370726582029668699490049618241510984410699711671731896377936586950636068699, 40113398511914269074722764601986309894195797773730892584185931943082185573270),
  (true, 90553563462784285151794665546741835684419347931345129880737178766447644722199, 55296258230412784413241425826970744202325086500987354036999984309755843135272, 53724406671547790327514112439396330459792278986233854700101165868747169345253),
  (true, 91230207881661929107744155716754713580126443322026685050597969793949445201921, 30690208153442748458670062327321021937381470772633771844597135929952772284020, 21879324752424983388344957837367583973450406768051205964932690690165304729229),
  (true, 57365870095179710461820560005844280179703464128539447965878732769526355706789, 17369138523106097169712551432655291748130011009586611006938929387306878049730, 27419845075877003174335328210035307359554478322922184902457679635172725778784),
  (true, 30166902354709987608234518729450924225798732835193370364802257013337476048761, 112453571731059737908376745750580110860501150417518399127373024919374239408091, 2876302313160843032694600464393740951350612263190709324360873580145422128939),
  (true, 18859526678281185715218630171441626194126469419645183283553366976681210575198, 6330022607070937940403249732977119439825779127867699806515263470364124800304, 37016599894390044501837690650110949892557829323566000166525720280957808819480),
  (true, 51207155960614785804027375230693052477666127940704771946964982907959025691917, 52763414100566683179559118373912702381219003403927911187843799132678282137972, 80195153618479484928329037312098066175071658944666088997739337097052934425570),
  (true, 37708369928086390729318783304154978845123283030861937337168846671214894067966, 113981248802259952205255462774958852994904736053333974725864106629289056759645, 77730356738086883210361614112781970456021508010328982202542704536641161241387),
  (true, 51317359918495703253795701992291211551064791611097976657520401261207585201431, 17405376223941916789445622250846456422905260614049746658337457186978707553420, 109895147869312322214430165093743491898550400621152197886759766236209795969245),
  (true, 5423790456567330762389985957886980260962774598289742853118790262947819418636, 94591491909571021484935142866005960482491092531066934531906504234201127905457, 97785655130099883874675339603226438393432362046087629046020966809171263289568),
  (true, 79179442979807320878437512498238537324717385035074352151648156812290729993900, 115254316160765528452764466479129784856107055048004854713117101378261371404593, 86720200715465861218934005611811914986673060443671284446054459111050927441837),
  (true, 55752798364215075716266379408535681853719003471576564678412947723329168821995, 19360648481086085684510713262943407579132289365065810349853765358894381311349, 48565244381039193965516147061038480277899501443809865771245413744485324615381),
  (true, 47475472976642111441931007249293218971562541746547338094517600130255870266292, 98155057282617381199390261851392358322413040127324559280687386575736104543400, 64084365053115414666626150620017051608553772017800785184092985575428235030402),
  (true, 109691461304175653350426612761610042867974031999589335080777400388206613607970, 70931496688139921979339339891387594663232093028021648069920776527266538244986, 1904376731468190236353458171174685362784379345910042230809676664552978858652),
  (true, 90483263261508570870411544135587718911304824127857509934835233102453294780871, 8553176649285415964183062036701219056709057507612426462695562431826867476524, 36609734272430066407007150255417792552885266541710397349690278110705522520169),
  (true, 43289693748653995615319471906084788333441062622438707616138583039152800908807, 78927180906868918444193788082803229772544872863735299876181815033355299318269, 41119312065063617696274409104440489362770885348000196275258803145480136454587),
  (true, 46495627635755012061643316953614942785159774314572647641534968783988664799671, 73940796585257094051272663587417502083377891304027497966923045404052831030437, 79289963022593420853362376884599125200422976880443112869034613661736628882523),
  (true, 94740765866887717802546469403758071536887617388727724719361295712001416182539, 3055681291714867603736905180025485188873952515287690294895299031863806343041, 35170775127503861517120912413312475955927133581214150509389549450526693097888),
  (true, 69355140879375301512417291364427000665540483382074375911411622737555585793662, 39975588425091462813625643975250877392931602368783231846228389270070388609075, 16210553667807763070750743808866637924094598536166854662495800490964611487356),
  (false, 25113225823506614850548160260086934514248332588789111333287664145415416624922, 12247067735022479173653972806178843377439475750213981819295974669195564779313, 27111426091109161879319300807028932789300132747905409689531006353187400327338),
  (false, 36456501322863813646308685432925463167383795902796732722808549982994269576954, 49069469609947055300578657819812430282163986966915844662493032759390477555157, 74253209499165515737288900340622364773422738212903089315219671058381543696058),
  (false, 110700583253286940248720772163820938508084319371845975037289947475257900502609, 12689827489008666922741102481242421359703923108934741437472302931807266438911, 37887740666288895916224747625026547665699840414313315246863041768620210471491),
  (false, 92937626044793171026145277972998389130282077684981393050298503431072649421576, 112918839646175924307594474757434615322933057259095667110943515339658072051997, 108009284012243818612727241642529404258046433828851148485754719531422427095391),
  (false, 86901462966684010283570631624432578489253087422802238375936593171977440762059, 95511649528952313679359816732874064506332201149915604683615650995675563223645, 91492573650298565066531672288484486634010625774901487295906221804224536042545),
  (false, 27346728848848450432288458961003003239792735249515012331168524601296360773922, 26415597983010785463167229369290351281700643934401230484759337771713621731481, 60082561898616047844229669866391323745228723618507174765017014175896682651854),
  (false, 83531455330822717852176225111509153304478602902495041580836525354299505239536, 45953076301656203370687667611598384413579676600222104639670664084816388940401, 34500965016649949370884491281256230011681725853298734912164423652995352656737),
  (false, 113668372015129000318993628781111230756129638698461815685818551029032627822927, 56123571648740018241990426333172783273209118156375272734985461626033256621898, 8856016554152527439954079193952729976017402269393199830993514825039891187321),
  (false, 110179339039839148429492504979763381791269809068025905973307988059274698874106, 58022081906977318114927727174389607232088799007717942557538381098479068989715, 58740011543870654043745704444017494991161282136589064653677616776162595299538),
  (false, 69405333162318199470880734620553796204438182970965397467854100830605958064188, 112508692589192481220334536128208716423464345200214866636930619979096316608354, 68649678239923040385774828605145045404911054225625773742914698429964196827318),
  (false, 29010005185221615021690027363273255283051327791869203501134197665155178077693, 78664884023343423926390864529300713193130013273849254645873471337090583169954, 41506402662204768327969075203125072241481363034455906718095429911030926515363),
  (false, 69408066835808776851614121573890613785884810312533288885387891577215213883156, 99956037662909706444681675571215947373298926519082193724993684336412992058085, 48418584654386973670781311156854400485101199599291946428341229558729692097241),
  (false, 874666914441082805516732372913625788481286654063430065447554131573922410075, 33630449360099396910094442556125372813044570317969763131994821173415406327992, 67165933984996367402294671380144835426892897229804003255962795255395568345233),
  (false, 91361413766184253701772780411953562535797969036850550369142312166439437075912, 73418159857814281425011397744351783353268248456405536224096933801108443252641, 72077265582638233795799387738933109223446398112836006977671066903538573854089),
  (false, 105312698832768143330978260470098423577354080012977568634857314666735409127592, 14753003079455835917512793972803276117916568050400971520654672257105890479843, 84047116834716772556178314814732195910693171563404559857684247015576125252992),
  (false, 63501551524184249672311201686572965271763834473946569419337857542239787986446, 101648019148608968759974885503976422561118826619341014686125482220244373545381, 35715498749783605310336591588429521699441110927656726037486844763461140058036),
  (false, 11310104149999453488838144370686949259929730898512267588237324815984400709936, 45882470446456803159476159951275194566353269766132009601852509934491987240936, 92143120293811461526669475991490403381066205763746034088842407737918359050678),
  (false, 41645125326455072355342502888028233926541124652275618648942170583560104420893, 24037392773672282873527320583372393193932848261734364934976280393349340632049, 111427295059752861753044352185792389906786783594531039727366588896484713158662),
  (false, 91685018014543143956581568067328144129854474122295100154963846690267533310949, 81223839700756634406161511367053920910654579561044038945030422720938894115984, 51406139574720811516283328701569166872762116711257510751101119046403255802328),
  (false, 9019987484564687906862998867522723770091335371954344248686508202479321799932, 85884197208997850978551777581061763546910161447719556169528775969032806017039, 32566735892960075241496558439658174688307562566132444403989312244896595524272),
  (false, 89669432049759506791637042109055473913916371639528256066673037645029596719702, 86179586448341260134189372248072876361173786210515722319182556233938773579996, 63097179188662438644424951129669342277456551249714994997611215771581996813152),
  (false, 68522500637487739819922751562004074413768351479947745873355327200238553024888, 6808901389605592449897785086827400368639346042067785571785819461390965617325, 8367693480082232579999238029230073036054781428838902496312450155158410454174),
  (false, 2936836863244127300686135728704223007524204901064301810948245370173659480311, 105478857066262825794091806493003967493219913118008614003865053446860189169038, 77278287453469103045671546919181023916620005248158477148984074465571678362177),
  (false, 80021508984210029333446166039749790550745616677976681115197846592481547344190, 72491769198939299046120368905326684962395548106627216782974374839024565780242, 90545030631275137076850044316565592048917864119974707821933617552275121783981),
  (false, 54187552280058382984113813597219335734952458355684440716408963290819497394950, 108648447492568068743244470937954708363182106909924316983640700505974931533571, 25688792093577144236370222169301566791385174490157490903898567874741466347873),
  (false, 76942054842070135568917521554642405898876084767162197101665731077091127344610, 5909277480214579411303312812496544133258587906874534614325497165827716236662, 74688351320995358536874766847656074884757046951607590461376518676924227088129),
  (false, 18388957407146460393770583231295728570899045714211799262217994310684177042524, 79069965188450837196781691896060667809425409980089810043430019243339539676161, 46555343229708575310486775584508598495887584671599020253170392396139990136882),
  (false, 66431104779614676958870736292172389193649095423521146479756759927591149819529, 88703090195682384590831102130920087552396447061861872386682678418429934611625, 58796302706126046435397756715159780549737772790197047046489346881392468503806),
  (false, 3985847776447814451969975360948183022689933688529867643190658435577838585244, 34768061556749319135848252644465593177009111043177174950178719878831262446830, 32151449805076700171930132400436243066823511148039668506950825366366515640529),
  (false, 94479293637480480329630083272372817375298856532246237050133581767924093206677, 29961985385113545313031779158033688150714756392176327089096428927564519575876, 71542907859435889438283782531158362878232179565714103376988219955221200422192),
  (false, 99850401029590315029505164200347768750891444264886541935700523050286409087181, 45772522051441236113754416057467161441178577608692170958555922038176606452474, 72937581786550571468015066924683842443478957068378423210193466799048052427819),
  (true, 93403200405945088009786286827513943564921521414829968636182865997118508629230, 76947155911308854514850943255752251699926099902529415504671564770846988818182, 31016579867165344215895292585284787925914050849902394898456486345120036352053),
  (false, 81372807958214657025070953834913908834996339010610260932384835887249848964383, 100908533631111242126910408729863425626867233289485345531998485586366681409900, 95957173881087163948677895331100662959187859445447032419654522802742373089498),
  (false, 77421489596229325466742024299351384254196353534694471008825745487959841163024, 46806241676087669205053508322483825052760033978554785703528837346784009040430, 21636866515241594309524305100161370424090361658540280807560958390722114362419),
  (false, 97279747951540618279697690878807632159459593516898600639089675302897819869364, 42560585029422984585600918909317727572298801158603663779825629792695938696813, 72545397924483362955674139978506831322329831916687090822280726766602496035657),
  (false, 21925775227079193011207197917932014787094974768900055217581038745133732783777, 70687370711682025882311351616310955648378861474949591852687067808622548094429, 62750101694513413117988463983398320938002247704129924039350533587192268527754),
  (false, 14107748171088516962311233349182937393688363055152656569292020469757785018971, 29333888938206002774425223806916492895284307172953271112736709682127347147053, 114894644272356428744224372028356183731362865845248628185272278072403409488710),
  (false, 62238077340160577424086930166252578581697804074031772727533480168691579929135, 6483226657335727892835930669651446456407839896658534778891593192634028562592, 53801416831069228460312930283452528088575069989634026534523070610743127722928),
  (false, 90858902635895078014829382580362606068349678492877626320753121136416868940469, 78660596933027411644477947390699797288848618818529683563179287273952475430114, 103712104323827501272327051539296372191635744896947745500324847574068795462730),
  (false, 65582788067954137314257886782395499683111856752429697417580670739370205392901, 11542708069652869962289745847795097118637200457082604934455612517314901242366, 73116002445774543431940141849282615090854677422642282216953756576126081170737),
  (false, 23587312783371514364513594602872291818302859145897662533125172252333821745329, 19140093400313581937546219277509287164595865380353203030349122365581292248893, 88695341579234891058396164647883222983704071317639074032412884084430450093121),
  (false, 115619914621383440742266971210869957233015353585849447636929583188521961316681, 73055838049992347491266239504529938984205130154755805923360721639000470990395, 58438027595486343184888039511090836349409809255667062302107165442444485443147),
  (false, 65750458737191161381426287545348054310725918035371804017431267913182684356073, 80578589213717049663812234624229882731963556348248403334849346072459370013488, 51059631301546111023107959947774365212361475896759966315746123264467632692541),
  (false, 104352531780406636314859160030164144103849285143966680486768330808733148954632, 54940894295278127191580605076019726707393789377727729912819972719267263642155, 51180286755891775043687945664043800835481259317726208675169264767702878426607),
  (false, 58019909817441461315403968208760543003930371287022097368610310755401344137346, 18413740182565397535234473826826779829158796883905575795719808678544630350348, 103695167768017502005452186281412023552067019366566105934408976572211791457767),
  (false, 86886792547343440100227418636304185967979910872942327743078195464409788233674, 25010280969030385063754959470618128500842978588124504102448707400489577013699, 96402014426943113189945872724233520059072325540467570559527651511987810523911),
  (false, 90589805249144837197003268604380210763434797830322658196275919059907766012909, 109314466946504769374596274859856353577054927207744377746413133362078433048242, 47285013341411741965494912765776935739411847932329693416311133069287149687157),
  (false, 272699933548422547220190270525651092184511916584088775683924621324614143697, 83028111546625637931042045107701896100809944484774201505317655210000939114624, 38159086432946105737669103137700100499159009606081439582154536277895228672361),
  (false, 41389424102335226716448114899254645954108560366641125578388841430682585814136, 2719718159212505420947109766767686909725669929516743391113133114875135213251, 41854609074526269992066543089301755266653176406012203503512306418902358857716),
  (false, 25551110178760762127008712077001217921567984299498277609584683923112970212206, 103060295460467806093995721767444193183532440618845073707063314483322400070176, 83944094065959639830147850694904065302850533110426331047070781107417209563737),
  (false, 31446057941822220726005406136000202682092473044993257020283552954255660258721, 83154867199772359711101842583264149838231575740342378865004291124176157159411, 39968396092861500944404699062270030687635073102673765280938909622234823254569),
  (false, 107493017005395092859563301766517750256893686052078445522666522476241629741861, 47219393132145360211289275567573424349903912487854175289902200050588286113257, 9381056169996573276135564222114536647898956967827012058101219850546851730173),
  (false, 5534198986559836463975132203869658585775363619144014273650845268194645605570, 95539710151339127776911879630155603149340773300311349948823699561475248545671, 15021087989721959367477506891422841799974764874066879251076228474206679928437),
  (false, 89355947673156397066144020293246656883500324867746214691350900344828798586492, 6947495053287696317949000093598903569979409754428333868982618362471385085565, 65045714026156884671828376581922564866163884149639705337992998383307227751006),
  (false, 28502262774315926602200029729797669878868589803030996204751423458781874906257, 66813283239151203895202713849718262331808188418118446616566466100160974664125, 89718976829397192228507132784030833397919283375637125234044056748018831916668),
  (false, 66487850993894757808361608800407331312720886912044643061154373517534328746457, 101948858396166406089956159617979267707702861088136928263847972467277288519123, 64373617528299668906956433196078813999662185715444659948438912277804469415574),
  (false, 44455637139652080886817789335122707471433839694157034310153515515504597158363, 101012560594168957302852545069926049472003936613352007430147964289998974019574, 50664792163856773003603711675501625352468461608808539116405625293455949752436),
  (false, 35362134797349427193523058279028198954150223672562224527345668368688559536125, 74253552621543578934511470516308680835182384719243596710783028152659961943296, 40235367992047073368719633652286104445634280278223570763726069480460717306277),
  (false, 44548515816524914064167134544361350863164632579102982702504324706205849631793, 9877210615049686707300641888598336364713208979496860576162039887530213191862, 8702104018062607454025963051875714816615670308071444181214444951322431438354),
  (false, 11652291615862626743747025776022043621172490758789385520885443486069955013282, 71113681133157291793971717157795068844602310455628046836770483315880857261668, 42661770624123446040442240150927530849265838879557698857760303790911203083093),
  (false, 28134511947011596650932031308556957672597334448341579767983027707368659246862, 6162611380950869953683972643334167778535610965946019998120155315084094202166, 79636058923212944448583157508711242022153067391736334233579887817369593555275),
  (false, 104568904270390054707424427240956043533707538782900904996534924118581380907288, 40847896855892636826752644620895823062497698986981266178218964432595261652441, 69363410040191565328967233225485565746303931240944471781856035436675373300053),
  (false, 76324366471786978281207660313263377009782316072443819385877793409867472015973, 91740382504325421972225798442469167265208864961021027166105655462061374298738, 31820581389859057772729582498514610625980969062614451381666274347160494424768),
  (false, 5890583965888900407647759034802469252392162092257198046254506547396628967042, 20010792604237624542631066395923032601423343484828310087468797046239250371151, 35807958359192676888835070168629317539389185927566921341138854629115579667585),
  (false, 66229084269381539405016530395404712591688253579379007118963622094058848865939, 56414772164755273235450539277285101903680522296329055317704193321095359965225, 67300195530644429342557498262454334320054495381696047206403773925602648246785),
  (false, 29734593642850247191742658517324684442283766991229275145450373043731030822053, 54974644726273617976601269903231287615549148835962486749836993271347492818549, 58300304106138486109523772203368873596836318202137351377761751358054208275553),
  (false, 4525525719969321314975791423383721405891865491382164474864764878292196245587, 57437111042546065337937868588158221692128802734542113774300274009744517441599, 100714707496009562559033349705540128799060744611281240657891538309298436082014),
  (false, 30938584902537086581534513972160963971394794230753761925096146554432677976312, 54846809676633714782148103711516458707040163306716101448362160075087560670957, 102086044891701038811248223315148312825488587172895453520426099009300663974570),
  (false, 31479339820922331687514219988048300867883835077865490027509616934802947778429, 25736170434039164316510841064675435356292344902879448320852111245474150562489, 84903882298288465685273720885527899315766080136399232302799622435412283343824),
  (false, 13218856028102129494378481137904092532998533865068521465103900506444948455148, 98450599574477418638036222085495234085624202379178004632947563600616980814685, 73644763316372105235784272710760673584375017469079545382334274927959493893300),
  (false, 97478597622272055729006057217512476166709637842623794010613106318241238819255, 33251700283627925511843679419286999264765894771610436147418746640656993364099, 73748418281010577906225832585108523003150180273528073840096886951520929875450),
  (false, 14187694495127722980664687266480539042127204281839004989493388672958338193980, 49174411025189912938040966990914428927347443841821153535797852380628712489081, 69677800263428103072190605443415478626213776638024969283188065451500014238698),
  (false, 84107264454251322114779304383914234965932664094430481352606016349943757691227, 114059803095560022872355296270379934776807731325018443422427243678815877674397, 75223583068964254096534195005833619759906934488879866389553789326872949956459),
  (false, 112999701538188565205384798117015088447912917627028835689380473996260682789660, 49590778297582230757045158786496357521591915427073881130225284956232756277655, 61405348166661546215447824274875969816791362596196316377355796461404393812698),
  (false, 34643677281708944978145978221990436115510735706870994906875492902153936478209, 29084103997389072111219152927356952178130743373808995984719458912709410437081, 46194800140413045727176940425878779048114749009203079824129310421491542609685),
  (false, 74859028120297429154409326246764036720126136518954683816213661396296083372466, 53584597207644604708397303765589843890604758763400236607340799279881596682680, 48378810041689156566519886987011246718136772103601342634327395388708607331057),
  (false, 24795277883406108886279348981119000061228387776191785054583138386762205277896, 19947915295011398812924677003559519160318041438085219676095326095427106308271, 79153756384387479929981811890936488008291984734444012552952297171312351933049),
  (false, 7324244357608502685472811531630706875976398831862096405657144531016280029704, 54344783415547670768611405859254181121856889384013135464208872132036053961271, 85982228623273575715937438296812404918017576764373516690486619176095233026233),
  (false, 85957977289678831702993019890011597124068000249927189937387194954224838321327, 66507057701782840657220531962343763615473394905665093962188724873155167275366, 86517781047196761819104837676807604469111905382979330185500440917910948723193),
  (false, 35424391083387129677035386072463752474954755866260218249294909480034400526680, 57717859182248117272298141876798400422124648861976517451464335444611185265972, 61065826498050642131674880536945080869736716391704888707147104618223380515368),
  (false, 4873701084117410286098301500980058582918926734367390316226251155080970873603, 16135620000660811832357238177534990846051313349643458217040909724224251840287, 91968650477666557976906665009764461315534958080017425998554070052634781957668),
  (false, 82381579891514605422734584948428265300802903453856129589457085612494688836613, 104505329507223712206227128370933352886499940067238329020575893914494646888355, 16876354816642112529092719679933453145384076191393929421124160902099563515854),
  (false, 99845447147265676643070961673165908029412831958867906015933792207162711842501, 17060358927041891469271642672458515168169816485609844474084987407206234213516, 63906063726724872372265403031456761774297865147975949928778577553079117887038),
  (false, 110644174773410427655016877088522386150648692780022026953378662656425716601404, 94328934771821885408744376445825045092688294660894001418149422145618538538711, 96876691561649521970471828917922554866999028244808989004411105143606681851933),
  (false, 91113828963413402085964131043134383361672542844395404169827380252505532223909, 74699469742538342559014782207636031282870080838741835086388444614529531144912, 101675670717166053449501074068587781884110906966645711871511688713480407648524),
  (false, 76441776804750762685496430257057657536729820602405207091435012134526004450501, 50545188264331466782879779319120422310486406845354774536137739354201223354227, 36531080998960047366881572831543912978593199780626393545532727232297426934926),
  (false, 51315647780594376271376791090310606326539696186062394390955066709265127227162, 39037755615396527555912713960850931714160706368474499140790684167645441906571, 10127483447863790961277452003166745327754651021232112753490374721359119489073),
  (false, 44347140696868914687721710245852933986242067410683951987833548929859540458620, 8297889970939946551399987703663961794347510436386272694750011491715631329607, 57294545042353744096135231699192176061062085988027943619328346091389384894787),
  (false, 48235325239543560436884566330861119214193125736545431967350705532530582293712, 54257832561265161316596137708750182154406486178754862569680769577095685012869, 103863695962552238285832702307791012432579182707204806344681278757764541886286),
  (false, 79034586943849483451672904808927437534193193177336204088008134313362892663179, 36046399891182751212607646370453625345617354052501688133534688534592328037073, 101704266833716074456132996439934196987362873305409271413394961791921652893768),
  (false, 20274092118068293423176728706363127630160940685109455040853944617284116371800, 98179575257048488044381566189227821579125728072081576867878548485468837677346, 72514450732870589308059888166681699725747831800622680182186233788259314303648),
  (false, 56189606821830545840253314531121752769862636580839657301709721869893220804318, 78189128415671107488013703026267024988408661199108142589235608944115481427689, 30620027742400404323649031128691906262406048273152942704382115704305139710103),
  (false, 27858467017033898002354023369964735217629301993452810394924247553428359097159, 91356691914881371246394846690902267619331880211367181067059977621936091106900, 53115853541186635502458353946692125765874468752466116539968705647704129904967),
  (false, 24466009566322407572948229731303508495292712938977402943089015003781211435107, 94353409726513271434136383664006028541786155140441365959072158219512787317635, 49427218432370477904905951517681300399669839401167015347068837228476932126734),
  (false, 48600958755756405752949190642659780354909812023368040852850772911386496819941, 60880000539517785479660248699915185632979237723263151665508420053724208051383, 11173947158506593759394182893694998944175677247684553624142661415022652497159),
  (false, 63011482923016681820825052543056175215538436382914733168610006191914458073406, 35246838531561465851696312924654792669242650700252555714727235495596253113148, 42350963483029411008538049670327864239607033590444003926331541870094342106746),
  (false, 25100076971761242583574661374574178508688911810884445354617205293032518523730, 107893321442026643085969904943075746363265216121149918214598989093538042051166, 41275222873667214971920801361269170519730231102783776929700156470721271774755),
  (false, 39112640242772492602096601851333046846544695881986201765301484516381311966133, 29768431922900162136217555199613159594404484632520988543780488793641998698170, 44485903866586578555846545867156269700303750170065344616476805396246066775808),
  (false, 23881820705972033606439668548045254211353283807903059078384032822019984780669, 64126859184071421543146723145405646628056349239226527607365913582419970912941, 10006872239177069106624640964818002879512808597975114243859395257823077901488),
  (false, 23287894358600549160496742495646998845862961192243587298174371239192511689263, 69707633867569143340650430804461738107765652793324109506547719640417234252075, 32818125568578938523600111314161196146041129275544814755277244969483397606942),
  (false, 27372403137653505979596372872558806228550123738223528651779370619074112200541, 101952606292869924518218832415437342528444001512459556642723716106150520273908, 65225151983821102130216366659619528157719043487319288939074023359550238875429),
  (false, 61958005863228059141113206229840768063956748228568630513591758206084434961028, 111182277257956989173530762719880547829632823867727881646560398802791980076253, 96868039332103197126729998428428409562555999172519391576485548103942475738851),
  (false, 47715915842287919967364150192400895791479657850435584541278182808148899456855, 67715090959824427895470756413480746235955928904945227255107280699648971262461, 100642855176944618227629579795689598387814969393153628231752890810971648782770),
  (false, 64981858149718504793155741651575322926480744587519553050983693463892961237871, 6771253146122204168176142292222150617523873586931994330261005167810882671173, 7584760095399098137058920899445475363049653560224484367788368670730274427842),
  (false, 112302606847739438427142600435533430432917952222788217943470412315180921950397, 98680237470354251870028849601506426960259331836957344570428934717073222475035, 93592825297877680167911121234344784333803658035517912463667624460580988122222),
  (false, 16833337232103144645590976982648901218885904992095872712600706181332234377829, 88122960249006071980955757914074648592084627237692683656481235235525238656471, 39669139501338284332675296450328187478415293119210806816874546516405095347472),
  (false, 47597954833056530536559992294366092053186825208190656260727561198516773668151, 60716124677884191090914209808452684413007876556223413314370381408438002219779, 41387797640467868670369857820712944104447652865522674469266474586552486697102),
  (false, 30172325084809202288202005632748295498466041587336871362949529694355972717454, 15287151564332655331170797090066697068822415810056379181850624638981783971550, 31431787819287003159687991029158712895411972847157006510590409568426027359221),
  (false, 45649055211884090988233286085425059091893262929550845673098703155530637379721, 13335036224720727608095238320790619264807053878469281531610796486992990714100, 6068134255222301420096304264388517212105465073558906922864874726918595326392),
  (false, 63273671890465351838997678843456025587110645102745241220857033635758720147254, 11701339271268979367668677547348691906088607740848646005961586001263718463987, 106998798527789412441346218505230471584138746478057712326816387463089975169902),
  (false, 110654185994297665082452164816398039582254565136827106861630045777462803474246, 55150711394188248584899356544288533780535239841498250641260434529715555281739, 112229084806552908772912718085517410090339223639808736688065436486642747265386),
  (false, 18167389001019167705101188165742656572260933817775147744314759751324791534229, 103136842908483353605799680026188662584915908633350192421548260840016037336172, 54213859494476918883163216183930708802803605576528411527709740519382396801776),
  (false, 72320664565424597129160020045589825957693698592028870980174426949915367183744, 15862784759495550141448980512249448431928983364673205630229910401463676134755, 110564221724339189761194597108569348445238709738812430322003651215933433899674),
  (false, 112708030286534858087019574977519558218580678836356576486824559237739104781943, 2746341540055372192631713663143182944559444503872716495434900105875343907489, 6270895695912952651036410912108282438612317720488319358675426319386683888538),
  (false, 31564971178342937118368793027679461151290161412805082068447499948210188849454, 15922041491784579059331752310176922677375158048660496859307548292930352069095, 51050824215169690010166240377016753696247919025899103442667561346464259855206),
  (false, 5549874347789574307010418021491365220503289540472074232413435085600797073675, 63290889541621777231860609379904539083656476430682724343889673456840550897121, 72653608927569110130720670527345470469941496529224639721649874498429017862032),
  (false, 87902403013635107185424266228017331701864707645763679909378632371278820538884, 40068440945948855586150093187872854229665066338638215360929332256643518366284, 82547212220946069871801128180591746200485111355985598229369317205208311944978),
  (false, 88917366792990311849000847911306042682029511335096338418271550910626767661083, 26061193251406892909005487997159675491075281369429641171175544422094208594680, 93282479097936040195581718482507615956292846860899585138513447414465216937522),
  (false, 14249710441841685501780467035345479412869783788257173187350619029000691824728, 48623130132208097862345527043407001269104033114687715397058297703508744599844, 30599020338221774696870430147294181952017186102434437924558505818381307394384),
  (false, 100207375437068699066744302109242584808878298354195304484816023448834563936761, 6129000710938653759336921648484984397990342213337822562092911067154375614987, 66742163013605709523220848991594147603349641032542040091661667156452116302703),
  (false, 106213249239862395381189712737545926783509795947509230440471012270271214892512, 21332822778776860577578051527701704224156661581211694538680176631240312229160, 39405602515689878059386296382665551832745914403423831052052045827988867273726),
  (false, 63406134752985561606553921548653584298907438897299956130011886003698645963126, 101632994666086110761088944281274901053022903634991616596967731940266328489366, 55435770675344325375335513883154393648486182017892639068743270352895441436915),
  (false, 25327073378537707991943554300971606449824003222364741742678077466920647835618, 68652588305234600290274707300462817086121195161509550970958771671122673903545, 94411170446369170155200966984774709220301978194195804694392245286117107440947),
  (false, 48228022531850426836623724322703668692224593199913600007308502560476433831741, 88677750672816327721716218744521761777506342564411354649626837682167681401039, 105264819279970055195469240805795728620612136687442881122677619432972843642822),
  (false, 101293148469058930975691296713464049580958805928511639603915243797215591203202, 25232240591491716952817704373384909382522004841672480510052677071782870528871, 105664816968579442176807317495016848847653075649288835771278135222777368384302),
  (false, 85128479504493930037102682495095375921547865520498159579304473967333953371782, 109459375896547203527965971874900320639503998352006759778974204539838407266408, 83351340780963858615109429151194742400035469880979300335083665318810769166130),
  (false, 52484631335969638081047534692371645667140725105580842864728603765571115751547, 95209276259650507869712823128154493004863860891848445449261662387403908166253, 56902649126785212037780527870314705507256616253933733389460118514910464710523),
  (false, 42969539497052574809415095208176383339543172754976920363200961665062563096867, 60123349681210277549895438665582084992445066593085387738978399458921811586823, 41078606795745707703528770870441799592398234718707313870918168480507395229428),
  (true, 104900809861783433087720357492211936134145871893828316723279234424094007527559, 21707765571829146480347097695972370084903235863519690904282721721148430581014, 43011950220984486768108515256959982070272027448784911097361517930331493665198),
  (true, 45557150143236169508606824001856992940306299223112894527971605019987062139054, 35493407539323379114722914963913320903529814871288304164037071776154099429815, 54303485951496492320116981841833332373953699202237273699066057253477982283105),
  (true, 57788533303852752676191165790066929859581279908090523558320657387007050797998, 100070000239637144439992918124608755030579594158282966458063731725527790044628, 102232919307061785464011169529166532257720702299695231117323225950567583590719),
  (true, 44658926919583837670678921026641456778921307498305170644587908308863698015014, 13429480608211403135491829510085081356316813159743203777653422829616570415494, 51716351328498185368139135666768103924294038458759774598354761267308319422500),
  (true, 79615790790140342195908417162217672332308216609663294860432624643726510868248, 72217504495784146600712207724426779040682256040568313911489460942959116652879, 21296218651395237174300151815980917237764035039470043780674213220315094475630),
  (true, 99924710232031461022559836020496480957629710663905885500139359198719779671787, 91688856453540574986065946191936084271369461123582517379114460478314072585810, 110484202699531580250807981946827139167257843050364833215627631781597363812006),
  (true, 17079047348406006413774300507830776031285741697123043847824555915308107471705, 64709325800259054334081822882987736415490234808959592263376869816736680668887, 97791528905353989222730999211936709466289445612196984387292504979734005105305),
  (true, 103170790460453390162641916350784504438633022104159918130572700138683565495535, 52361892600793279768351065346601542542107230894062210148134753986654327082817, 52766769758882069173937892174498781425763600796813317516232704153193015127189),
  (true, 75688655390292173831536765381119650861362070957560297694837320714230502720241, 54901726471832609109534386765612992298796390997916411889410353396905409557332, 57621511631504067223752820346336018303105390059932164261035117541555236098037),
  (true, 55463798246510606963796909194747285957993405766012602637303905272199285161024, 101238375546598319619713389546556713290639207119433706881075932368869946163642, 22012670591387556603325295375935295211207448111950819081966286774465283112773),
  (true, 107038450236421695886024261830853965705640789361247861720040331628940536397485, 88707500618454671683661490837376824357069907033255568937543134478339587946353, 15315899481184256039870327336184863635929315174414921000188256226885349999186),
  (true, 43355774369594094194211922197871364849725582099584277592433225562312089340476, 50017190094035538236100355247378725947969860921131166154335229931599828547692, 58237802908173877929281665341400287124167127852157242253507418363635431366035),
  (true, 16064882432478446525057165718966479563263568895722990293268288580263851716713, 35623241263781434059447464784650567072998268049713416625686546747505496865310, 33610748141044115900846445210773493498143524627381289604106125272754137314069),
  (true, 12206024361301500450925557644958689697303235951423688038443046060980920102841, 53571869089801809026240097661422336537804659896475262443108190637190785585527, 106269661432820523569521204517434744508278957858067341949410496800914277882298),
  (true, 59819825745313646793376911231081768199226052030514039185891504624835294813316, 53199730493970676036355603506146442185577374875883951941605795752424914550263, 93323212815293078667279183545419867995115775015774521016339666933383081707239),
  (true, 2110971419461031709003820718557668066933365304594477918608772157974686488048, 105374581101828320384865588235628475142344884685423673199492813500083289581155, 31390701238599745957681999865593153086923581972075591609347309434844982138388),
  (true, 53440818326465214387150593911266383000839153262763437646894107162060515612815, 67749621715139427947235811414837215986453680595678161161944108615024096927833, 102152867380916910933029033820090632433926813594235757579934030783018400898316),
  (true, 88210709115945311901687215601447862758948122564549905711952149098597184623774, 92891046795075548245937922460047274314877688829667031558762023508836364018005, 25930688414554529241832140051721183345768817095448212809041487320891716982773),
  (true, 6203132254141509820871459071177195633675856544887414345495320203946328864991, 31239661244004548744434228926875952447209356415710074616873486844916049731316, 37037552927321721560340665175365890316444748250514648962954802433681711485382),
  (true, 51807166789402424331369656013295106819106974001802294874531672415060974783663, 81322011993956199656578176645940592148775590338800925877367726053776513592239, 13483101983031194637798036703375320367848978026988671462690205097368873096447),
  (true, 27971767403708512588758454052962735325530838559224794902119999141809688432281, 73280450230141217777582417465437678935255618345896494528557302604415411627606, 82830289118621666393439009596430811353414517725024556552366605039463226475959),
  (true, 36075455347775954534798917305013853204704316570362944863679017232396963612094, 111022256623205969558800985850457707492384103918847572316356792423027526681967, 65107172959779577785963824553458401988386306615458124105064390554525008143281),
  (true, 98150933344872465433551854113915014717817246482318459967424548148897624969187, 35992178407205084866691786310582624673180237384047231764867456113238889495856, 53974042104184546499463709264968517234680496829700440879148161883512249127437),
  (true, 48800444422813104084218959416736306796858263822663891556119970655717748570562, 58941054477354764177052822156642979023412002709677334212297147964955294253524, 84383894882290557718736919503906069489089004085076181571384087656133421877518),
  (true, 101707986038446217000350213828787095886934192247418816455072057629628108273101, 36940138956369416653374491645619511681125239032506794493065016244256203372881, 105635369058113950042754391218445137486216600667593880246775858917275897029884),
  (true, 61966054114639384023036132775516989201584754267210072230514572027471017753462, 65743128462988262888747781494821636286452786741523163101369784681043863704508, 108102722072670080031299333032170693937962189245311813631665797059459833973717),
  (true, 31803345532360731847819227968125765320971184198950068458242743890239543773919, 47462651198006670020692994363703413907272574784689264471090365548446421285407, 106763705882590236967133960066177954638715732722633437588785176357401360321316),
  (true, 9943315508354439874963491617415862876165529795081097352971373423753620392081, 87281710124301853954874730594636380936753082853006191212690764730524233669546, 8717904156503212468333939277525337208042172681680897668563013854376158954268),
  (true, 4338970727904517354802915687330165527081064195457402545021958054830145233717, 73116162665390133517121659765699045855680598140430952932927675001587135396263, 58790963731329842742793916376708931262133503139832253624964775105919329615102),
  (true, 66402388624859029846511410310688514533172823833412511753417432225653591912441, 99675603029216075768716989905135651508742240099754907852125276326969372883790, 94363478244545653837906358402695012490824092956718563283968124385777002792951),
  (true, 80569347922210945541320532307952438905806693092580129914804809693245254482151, 88482296132738368978861656950781402005934113065858946165152439368947532048471, 6595050042161544502136855646323741645125467005307934189686486095694223791999),
  (true, 78438238334628702336124746935943313806735757060311529677681273675470949032290, 5127993413720387948837804198697468555906066087754264217796692770843513239285, 61930879980108567895075659016623872671738699025834468427962067740188794110559),
  (true, 67432594689782671190653966726267463738979916140342078783388056630658365080856, 96126868049581220442571395543015955092370034222625789146696459773772470738999, 46091560384449467690055182080978800462001024638443716332446154739619261045530),
  (true, 22127517335697071929597491109685176929521142379247179547734533904987132861045, 35663077962991845452944529456163310502180401741518139263178555313174111389192, 12015630737462088449873633336246165926590333108655030970944504386820444338344),
  (true, 72456875286939135667857645925618900531416313855407630280175050850979663575911, 31843065544024024878690612881279251163223480657268472165422772207607358607013, 26178905991865917016293353900914853573192709069013082206650611954047089659719),
  (true, 95750133238479954545688191035240560288044295209861318727261437278630157615481, 15727608846505111285877991603003516370563722515923866190057350598723268126809, 22943201582259751164317543230090289983467720855880342305030678677279201004312),
  (true, 45931365951546122974171917436360658784352495624365931001483610904869722138386, 14639232724592320778307072699658934031162379911134749072098874313228715328739, 39335523249742517608715818783673350866902602765056483052622278778592137846848),
  (true, 70802004247943369887719219959615390061542961348422019679682159209502660001799, 65431764212976918518609303725569847671003952608379754840580238094610207267216, 101958807123192715809372314907904121646091991550779953153224946632441550022964),
  (true, 103513847132809656549887861581265044513562698689350110232893543441627619669102, 33515693828360858525131290742265755861059418436739429654710914971852079304880, 85193897541042204975713664552960939376307987011738310527604535472982894294495),
  (true, 113349427460522339485457889898348465386140362371944972803797910968047550338185, 64488504444035995087919481331237663185517161786587367969277560254765236457853, 15410878263638130442842949664284079825246632753048970246672080428351640949542),
  (true, 37900577096235370406460206922751657766137540226670102617311771780899361754321, 51356857059827780729658751078561303577940103981360271103784826709966531481594, 80774157801455751757018709196612657639145509811252130753312786704971069442005),
  (true, 31293531509349339464708690446899576725942760540945500437219723793821365196172, 18719759316169929104244369142331374579367968363665440096387200287922442609668, 61204871903396247975428372389326081373704714023868390518736427206710028331494),
  (true, 10452349972567220060100572245677547320789149092735927730448679927112056635548, 52945926471550460245404979338388765164207683867226043919227376599224069893181, 44303882267753791101534964215396163999379823332907288921508562369730123595641),
  (true, 17740955387956201101191150666255692144183495124993697356071428985494441756034, 51030376523275461856336424741177015549121714407926341286805647094717719337791, 67598141061225322188881241261133357872704740877134863466189115185919909094842),
  (true, 6453209332780686469195323865427040470635790943315325186672261044884956394879, 77098030843829376220905191665021763947727062319745663803486669489587802848635, 48384392414023613253297325418768198319798885169689978132160981150050057113033),
  (true, 42977290687930540429056810750977844510558879115804597284617792997929266578466, 63876620034200909270735202621738410286063188584265037514598459797106096859458, 19163251306398089355841790702061321585213907386106602604511006607179773672988),
  (true, 29206327041999317245886382418732225393112870695289374548236058011835040123657, 89646574259869753478612956240131045471059613875749811283873577373279892662378, 59672792158042705063778957020413964492299780880989919326146594647366443312387),
  (true, 63723096241483994681747950302702887423143940446072691951314596184870459932499, 33825505212465358378403245057268791869178616116922330876735325552380222679202, 72533710684464406825062878477061086455985792575313697805673724782701878780454),
  (true, 104850533873515497223229471334703144113766794896920229640503646214282045111149, 73267593313441409300189546512796185205409227095007758642090336323017927930009, 47947810646686385849066359198629143701048390149693069063232547633797998573907),
  (true, 69608089481448942506985970533080571372658497358227418594947967042503023074984, 35122352653034896789065167159988893936758665517041323244417392265403551204687, 95477744783866638648800204073290170415134199651575205175952130417278105453568),
  (true, 80912779328353192711475113853560580594416626945527584108151132103608505148944, 36432142078565300654545136853250172805368010608220458646192474121128265717267, 103477065995875840886110560665062690412368791632699811735459226585767778205430),
  (true, 88916911301479392393653250163792508458369529447779996254144018210108421092811, 27899368116840528974236045186261721291790895877267444036014944273774889327892, 88508822174043979624415837927512316563140608054386135801591551289730593327830),
  (true, 65389320419813485247594782594774713541690288740013108966795726313361250289266, 12917175324412356032394345265577415081406926428198209110605083614262463971296, 110574644057989482086910345125066037428063717732950840774925729560994239846161),
  (true, 99449876347189807741150548896147600746709307718206391253316740024551039370254, 3449945506890730170416265346947071758924689531151569386501654913394312293963, 103171513949319281920874164312871275809672171078354372077739992355978640245270),
  (true, 109406743461759386333271940893488560132905376054228962366688888755553277888783, 110509898769039039803768990907481455841218829621296799547789237929323330264657, 15308772468333941195802247061060394818558854034815078684802279797229103086028),
  (true, 2203290083631469605848291344874569475302504889444695815472732249080728342392, 53754241441988562639069394894437081548161655536138767192215924297126708865137, 74450931574917335925547902925502705105925635898276074503100830664373428326637),
  (true, 93874498267252875459829942471602951461300513914513610427505665936290767008349, 43820940550560248975616185343685922109127290204213955168825524456770967404782, 110125727499207993422331505299201634550309998156105497093404621361341630275499),
  (true, 33698744099345662826212486495038040691002453051760216958502481366368974465002, 48268382206383815349176992351991206453357624629473467666708134327264991976812, 28509345386530504332392269992807810231368465929117221918082268353618561519282),
  (true, 108257451840580869655920976955164469195387027357884963978793756447173393133742, 89703268903041772303727081422475638148344802852468581060273145795174867446709, 28003712110115709249446248634469260126919965648731546269954217811779248312863),
  (true, 14525149395862979912619744844836715968744802779032078784012319267977866391085, 111454665760348510101517498630906146338671207517924388078183907335431747713520, 111099067423663106520661931668798674729082207947493057149062401855590847568638),
  (true, 2103223004063911973514362341544359963777225548698817990578619905736240947402, 39334196010109886432199297849578544413976270515726147263923562355674910862217, 2740054901990725792592926384370565513650647309316018283212446312546386463069),
  (true, 114316970703230046648001761957463170830931789580862082268123652359111957141352, 100177654623158045422867252746530883836574171755217890919219349016187088233300, 46205509638928197096184840924921654335092357075658143790184340041723042368164),
  (true, 17766168833721216895633577701165522968467110789020903389485697121574791365230, 52232727273742348096146200880338414179132881609813700004080186922200134089186, 91376096782742036887216969917882716695314625492983356079694907281696958834153),
  (true, 61318890507784653514196395680453065679833721773058419387349427154314284942462, 22559277612189290735023293552611165066223221937321562643967609830188946320598, 34681978758987171189895017434681927072738743239178107396239988810214207699964),
  (true, 15983776296541777115478006326161020671238835178017647330004898546051160862196, 78618905870494723040070394247825241105297225439424426280210634226030460197035, 81927373069940305143033407386308654606607651051163935818404762716699735277040),
  (true, 89764644475450341735528026014842822854682684977582355984665281733976509602703, 32216541651702075949030614206660548046197742649531364474862399226735294473970, 23329828155562745951920261133772185445788315567919489381564766682256681770700),
  (true, 114585175613096770572134861779044477932689667302182625953883880909287471272305, 79168476610075839031071668836596153867097995741244506403053996186457822060474, 5673253684268015614533409059166375386655521357067839990283002799180848256010),
  (true, 67082079673885031037751987700218809725070627424913950659131632458347093107501, 6719309156402165155955983588717456354132299125441077279037528647078611772168, 82008785148293921588376205395622664219846881021378816072671969062396200396686),
  (true, 23653266007319053148859745763720908902692152162447049388642514831567400468627, 2797380866245567376188732227213568678608749295158845501548178993062920599229, 25461074283553353016728419488900369321471203566416918759432104850780097251241),
  (true, 53837740848408748268345636158739005816373584503888514745253187757236991556955, 82438656448553390655186842837456575626975688738063897332205777326854645006594, 63375408714861204086929741980140733711927857666402628292737219787234605095331),
  (true, 103113611553550122891110608929106099678995724828169471230312704257797658408658, 52403896936724548043160429605633595012453547503613652666982715259906952782720, 115273014408368404305828402195479339320884894886821972995351554441835319504474),
  (true, 90049314851858503141741534340013193243737282425805513551484079243931866981505, 14014734846396623739677145019098326135522489423193955349649057597348497415346, 84485374804473097560701186286345912995341791407885395374325409630723158508304),
  (true, 113398856050734627995189888470633593172834303724945008271190950870164992427367, 99250486914820193821706110175002644015464224739773200008128853982236676197871, 94470644824863517131859514283902590144372830755800048914119276231004001434717),
  (true, 22804231154768947629371173530210747853853121628611831596061728736246727435796, 1205027563796990955119585055331795899699888282639125502319610842420268380699, 83406297123604720084675417575241050278796078246823662576200264864661062428092),
  (true, 3372396520711231044435274590070356876172111653347472437223412922899853727999, 20840503451038067893499349609755873053465443890981763641205718617262404723626, 104499522374452415746693308729256436730787422631368487288997275045948716342092),
  (true, 33772815976270626626543509274126100657479396721021792756345521286141248594990, 103139060345192478990254653750822126993115134337691207626174176579333989401947, 870734256717576499815235790098542251652433990291589684479062307235992019438),
  (true, 112926971506966127036592561366618270470449436002376946060668276528732584056850, 88599290736650636540099238995667850730340004281025719124612855809778991079314, 79464999547516725537214389094051873650289726833569920493688148068837145837609),
  (true, 70545681471583379802933063430494931938766679516273989943323537757761949310726, 46593055356153904457041285176082075573336035986132132966231701318230597619521, 113478178266598694799884501322280086608877300309505174128999086552974420424566),
  (true, 95690276165080295994521752761094165165709377407480358875673397221864736404531, 6672426200246174347927126263983263485514088381614635101245592743344925936807, 68760401184595231677655295298566335700765744177885787595840969792020535089803),
  (true, 71680151061327217658204454291724507232212399500785474551799512242243284196645, 6762646487775420984535406434746936549914985402906775229953180446149601830360, 114081965973152152640753375630144598629726896771134874931041263098615720112415),
  (true, 43785484345205619970961223451372907652912143706917162601853522420826425751741, 100064621283566947927036311499205107208710892017487524651305421358716591807364, 6038294449933219360992768985597633023582133461494057702283580039582147522360),
  (true, 111093158075113165888419793650603821272582021705310155865218151621637620471696, 112589316663005550897776579321179671300097308809292161607837967016106873535256, 63335008177049680401531470845157495187802862537515986779230405832084479775995),
  (true, 28683262560512036467250241111665882764443637898762499712752176031300332874949, 10353449082646570895869567415520534793646212175432215497224670851417445788664, 45145931943171041340827422868135719791730676114468449663995064846236224680792),
  (true, 72944063234768689455355113482620494357879106121808121438280543229463333249192, 104720535009793523979027900083336155526207127797800680266400239994512721830604, 10856109152298782113777272607083788045635648549194661852079872482725149152712),
  (true, 40889600013448476216830114747359215712192814807270603516783272743619090757350, 11142998839280467132196879155311651965694482796878851408455006153677395519202, 77798823913763818675273352010567958922717173095511019755668178213351582489658),
  (true, 104545223133523214749051381638267408262297486338672754908250313240078316531681, 18104924766593646519254780973030396192842753556392347067835376765979581652501, 4380279792955156444790415246644171411619049388905001471748161292827319126417),
  (true, 64354693739306726655320319034285086878190621867910829981740669929459575845388, 2909571668610521441869804001853987744758126059777557633503453090060665531401, 52313734391664740451318361332910712364513444630500987536696612932896836883015),
  (true, 49051260706295781668449401544580128526256981141110913469532658398570253405261, 8408333338840009683627886876018176674976187255026340978701612173489493718933, 13497212372796594485207981352261203261739679536403074641818854054419132149752),
  (true, 23345136147686785373202575906049310367670476548560783398072712919593799904016, 67854260805772758575034107505584237155209276080004755620858074391882429491001, 50298379753394884862774167177221948916664857898939884873214966919410543611830),
  (true, 17845512328408733560262580925477904982571629066164094288888444825106912994064, 34093279664095818634966491437527711108451034721843641957980891924619888418717, 97674312693713921837629925662858675826264038429412283973149748535470324557569),
  (true, 90227036865232386061232331660014907955723809501285991012543190841280512791926, 12653237090785552753579447538315299991073994164930141412046953481893441402328, 99908390331964300899476040958894793427456101371559293324674561755137016062440),
  (true, 30767792827767588415976140027884278870111073000826143891617694514005172503639, 69568548492571444458485153382415976881323827309369892397284061923058798211104, 12815435853042740670830452714185834239006689975140008725583044463446516115044),
  (true, 58788560744013199406159851554535190251376724520225015890445864408047944424402, 74263148429555993057743104047448637503531765648829218962253291621357219192020, 14379308662925934238674761262666200555157729210678113208179924259212034646529),
  (true, 94713281540839056830111561189502786794628243324277462641427577773582981747854, 67933824565083185506698228547330314342369016444889243021068865590586967892668, 68458961916994815308285659062795228963405832706903837050274789600910041291869),
  (true, 3936477844996531308531187084735262013173769898464916975239917307648926515342, 113598685222672645129597645280050063845993689622841583879641965835369436170900, 648283082062115874308935220460590882705126137814729545242607933172744545250),
  (true, 66434390973925144466073271287821796038003695194169110494110089305650096453661, 12402202686218762177567235911775779164004716598278868847786114277539554646092, 24678849118215552148312087830792888746041224110560601850711771001608500700145)]
def cubicLast : ℕ × ℕ × ℕ := (66434390973925144466073271287821796038003695194169110494110089305650096453661, 12402202686218762177567235911775779164004716598278868847786114277539554646092, 24678849118215552148312087830792888746041224110560601850711771001608500700145)
def cubicG : ℕ × ℕ × ℕ := (66434390973925144466073271287821796038003695194169110494110089305650096453661, 12402202686218762177567235911775779164004716598278868847786114277539554646091, 24678849118215552148312087830792888746041224110560601850711771001608500700145)
def cubicV : ℕ × ℕ × ℕ := (76626890310466861426869089647039036757962535851890885406097439786770458211455, 74462945259064871768191128030512052509059297803194871526163573358218695456204, 34768139465301476436978405170953382516735956999154666452188405812258086013549)

open WeierstrassCurve.Affine
/-! ## every point of P-256 other than infinity has order n

The group has at most 2 (p + 1) elements (two for an x at most), and n divides its order (the base point has order n, n prime), so its
order is n or 2 n. Were it 2 n there would be a point of order 2, whose x is a root of the cubic; but x^p - x and the cubic
are relatively prime modulo p (the certificates below are made by tools/gen_cubic.py and checked here). -/

def prime256 : ℤ := 2 ^ 256 - 2 ^ 224 + 2 ^ 192 + 2 ^ 96 - 1
def order256 : ℤ := 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
def p256_a : ℤ := prime256 - 3
def p256_b : ℤ := 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
def p256_gx : ℤ := 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
def p256_gy : ℤ := 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5
noncomputable def ecMul (m a : ℤ) : ℕ → Pt → Pt
  | 0, _ => .Inf
  | k + 1, s => ecAdd m a (ecMul m a k s) s

abbrev P : ℕ := 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
abbrev N : ℕ := 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
abbrev B : ℕ := P - 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b

/-- the product of two polynomials of degree at most 2, modulo x^3 - 3 x - B and P -/
def mulm (u v : ℕ × ℕ × ℕ) : ℕ × ℕ × ℕ :=
  ((u.1 * v.1 + B * (u.2.1 * v.2.2 + u.2.2 * v.2.1)) % P,
   (u.1 * v.2.1 + u.2.1 * v.1 + 3 * (u.2.1 * v.2.2 + u.2.2 * v.2.1) + B * (u.2.2 * v.2.2)) % P,
   (u.1 * v.2.2 + u.2.1 * v.2.1 + u.2.2 * v.1 + 3 * (u.2.2 * v.2.2)) % P)
def eqt (u v : ℕ × ℕ × ℕ) : Bool := Nat.beq u.1 v.1 && (Nat.beq u.2.1 v.2.1 && Nat.beq u.2.2 v.2.2)
theorem eqt_eq (u v : ℕ × ℕ × ℕ) (h : eqt u v = true) : u = v := by
  simp only [eqt, Bool.and_eq_true, Nat.beq_eq] at h
  exact Prod.ext h.1 (Prod.ext h.2.1 h.2.2)
def check : List (Bool × ℕ × ℕ × ℕ) → ℕ × ℕ × ℕ → ℕ → ℕ × ℕ × ℕ → ℕ → Bool
  | [], t, e, t', e' => eqt t t' && Nat.beq e e'
  | (b, u) :: l, t, e, t', e' =>
    match b with
    | true => eqt (mulm (mulm t t) (0, 1, 0)) u && check l u (2 * e + 1) t' e'
    | false => eqt (mulm t t) u && check l u (2 * e) t' e'

section
variable [Fact (Nat.Prime P)]
def ev (x : ZMod P) (u : ℕ × ℕ × ℕ) : ZMod P := (u.1 : ZMod P) + u.2.1 * x + u.2.2 * (x * x)
theorem natmod (u : ℕ) : ((u % P : ℕ) : ZMod P) = (u : ZMod P) := by
  rw [ZMod.natCast_eq_natCast_iff']; exact Nat.mod_mod _ _
theorem ev_mul (x : ZMod P) (hx : x * x * x = 3 * x + (B : ℕ)) (u v : ℕ × ℕ × ℕ) : ev x (mulm u v) = ev x u * ev x v := by
  obtain ⟨u0, u1, u2⟩ := u
  obtain ⟨v0, v1, v2⟩ := v
  generalize hB : B = b at hx
  simp only [ev, mulm, hB, natmod]
  push_cast
  linear_combination (-((u1 : ZMod P) * v2 + u2 * v1) - (u2 : ZMod P) * v2 * x) * hx
theorem ev_check (x : ZMod P) (hx : x * x * x = 3 * x + (B : ℕ)) (t' : ℕ × ℕ × ℕ) (e' : ℕ) :
    ∀ (l : List (Bool × ℕ × ℕ × ℕ)) (t : ℕ × ℕ × ℕ) (e : ℕ), ev x t = x ^ e → check l t e t' e' = true → ev x t' = x ^ e' := by
  intro l
  induction l with
  | nil =>
    intro t e h c
    simp only [check, Bool.and_eq_true, Nat.beq_eq] at c
    rw [← eqt_eq _ _ c.1, ← c.2]; exact h
  | cons r l ih =>
    obtain ⟨b, u⟩ := r
    intro t e h c
    cases b with
    | true =>
      simp only [check, Bool.and_eq_true] at c
      refine ih u (2 * e + 1) ?_ c.2
      rw [← eqt_eq _ _ c.1, ev_mul x hx, ev_mul x hx, h]
      have : ev x (0, 1, 0) = x := by simp [ev]
      rw [this]; ring
    | false =>
      simp only [check, Bool.and_eq_true] at c
      refine ih u (2 * e) ?_ c.2
      rw [← eqt_eq _ _ c.1, ev_mul x hx, h]; ring
theorem no_root (x : ZMod P) (hx : x * x * x = 3 * x + (B : ℕ)) : False := by
  have h1 : ev x cubicLast = x ^ P := by
    refine ev_check x hx cubicLast P cubicPowers (1, 0, 0) 0 ?_ ?_
    · simp [ev]
    · decide +kernel
  rw [ZMod.pow_card] at h1
  have h2 : ev x cubicG = 0 := by
    have e : ev x cubicG + x = ev x cubicLast := by
      simp only [ev, cubicG, cubicLast]; push_cast; ring
    rw [h1] at e
    linear_combination e
  have h3 : ev x (mulm cubicV cubicG) = 1 := by
    have : mulm cubicV cubicG = (1, 0, 0) := by decide +kernel
    rw [this]; simp [ev]
  rw [ev_mul x hx, h2, mul_zero] at h3
  exact zero_ne_one h3
end

section
variable {p : ℕ} [Fact p.Prime]
theorem rep_mul (a b : ℤ) (h3 : 3 < p) (k : ℕ) (s : Pt) (Q : (W p a b).Point) (h : rep p a b s Q) :
    rep p a b (ecMul p a k s) (k • Q) := by
  induction k with
  | zero => simp only [ecMul, rep]; exact zero_nsmul Q
  | succ k ih => simp only [ecMul]; rw [succ_nsmul]; exact rep_add a b h3 _ _ _ _ ih h

theorem rep_zero (a b : ℤ) (h3 : 3 < p) (k : ℕ) (s : Pt) (Q : (W p a b).Point) (h : rep p a b s Q) (e : ecMul p a k s = .Inf) :
    k • Q = 0 := by
  have := rep_mul a b h3 k s Q h
  rw [e] at this; exact this

def xy {a b : ℤ} : (W p a b).Point → Option (ZMod p × ZMod p)
  | .zero => none
  | .some x y _ => some (x, y)
def xo {a b : ℤ} : (W p a b).Point → Option (ZMod p)
  | .zero => none
  | .some x _ _ => some x
theorem xy_inj {a b : ℤ} : Function.Injective (xy (p := p) (a := a) (b := b)) := by
  intro s t h
  cases s with
  | zero => cases t with
    | zero => rfl
    | some x y h' => simp [xy] at h
  | some x y h' => cases t with
    | zero => simp [xy] at h
    | some u v h'' =>
      simp only [xy, Option.some.injEq, Prod.mk.injEq] at h
      obtain ⟨rfl, rfl⟩ := h; rfl
instance (a b : ℤ) : Finite (W p a b).Point := Finite.of_injective _ xy_inj
open Classical in
noncomputable instance (a b : ℤ) : Fintype (W p a b).Point := Fintype.ofFinite _
open Classical in
theorem card_le (a b : ℤ) : Fintype.card (W p a b).Point ≤ 2 * (p + 1) := by
  have h := Finset.card_le_mul_card_image (f := xo (p := p) (a := a) (b := b)) Finset.univ 2 ?_
  · refine h.trans (Nat.mul_le_mul_left 2 ?_)
    refine (Finset.card_le_univ _).trans ?_
    rw [Fintype.card_option, ZMod.card]
  · intro c _
    by_contra hc
    rw [not_le, Finset.two_lt_card] at hc
    obtain ⟨s, hs, t, ht, u, hu, st, su, tu⟩ := hc
    simp only [Finset.mem_filter, Finset.mem_univ, true_and] at hs ht hu
    cases s with
    | zero =>
      cases t with
      | zero => exact st rfl
      | some x y h => rw [← hs] at ht; simp [xo] at ht
    | some x1 y1 h1 => cases t with
      | zero => rw [← hs] at ht; simp [xo] at ht
      | some x2 y2 h2 => cases u with
        | zero => rw [← hs] at hu; simp [xo] at hu
        | some x3 y3 h3 =>
          rw [← hs] at ht hu
          simp only [xo, Option.some.injEq] at ht hu
          subst ht; subst hu
          have e1 := (equation_iff _ _).1 h1.1
          have e2 := (equation_iff _ _).1 h2.1
          have e3 := (equation_iff _ _).1 h3.1
          simp only [zero_mul, add_zero] at e1 e2 e3
          have n12 : y1 ≠ y2 := fun k => st (by subst k; rfl)
          have n13 : y1 ≠ y3 := fun k => su (by subst k; rfl)
          have n23 : y2 ≠ y3 := fun k => tu (by subst k; rfl)
          have f12 : (y1 - y2) * (y1 + y2) = 0 := by linear_combination e1 - e2
          have f13 : (y1 - y3) * (y1 + y3) = 0 := by linear_combination e1 - e3
          have g12 := (mul_eq_zero.1 f12).resolve_left (sub_ne_zero.2 n12)
          have g13 := (mul_eq_zero.1 f13).resolve_left (sub_ne_zero.2 n13)
          exact n23 (by linear_combination g12 - g13)
end

theorem axiom_p256_prime_order (s : Pt) (k : ℕ) (hp : isPrime prime256) (hn : isPrime order256)
    (h1 : ecOn prime256 p256_a p256_b s) (h2 : s ≠ .Inf) (h3 : 0 < k) (h4 : (k : ℤ) < order256)
    (hg : ecMul prime256 p256_a order256.toNat (.Aff p256_gx p256_gy) = .Inf) :
    ecMul prime256 p256_a k s ≠ .Inf := by
  have eP : prime256 = (P : ℕ) := by norm_num [prime256, P]
  have eN : order256 = (N : ℕ) := by norm_num [order256, N]
  have pP : Nat.Prime P := by
    obtain ⟨q, hq, e⟩ := isPrime_nat _ hp
    rw [eP] at e; exact (Int.natCast_inj.1 e) ▸ hq
  have pN : Nat.Prime N := by
    obtain ⟨q, hq, e⟩ := isPrime_nat _ hn
    rw [eN] at e; exact (Int.natCast_inj.1 e) ▸ hq
  have : Fact (Nat.Prime P) := ⟨pP⟩
  have : Fact (Nat.Prime N) := ⟨pN⟩
  have l3 : 3 < P := by norm_num [P]
  have sm : ecSmooth (P : ℕ) p256_a p256_b := by
    rw [← eP]; unfold ecSmooth cg; norm_num [p256_a, p256_b, prime256]
  have og : ecOn (P : ℕ) p256_a p256_b (.Aff p256_gx p256_gy) := by
    rw [← eP]; unfold ecOn cubic; norm_num [p256_a, p256_b, prime256, p256_gx, p256_gy]
  have eN' : order256.toNat = N := by rw [eN]; rfl
  rw [eN'] at hg
  rw [eN] at h4
  have h4' : k < N := by exact_mod_cast h4
  clear hp hn
  rw [eP] at h1 hg ⊢
  obtain ⟨Q, hQ⟩ := rep_ex p256_a p256_b l3 sm s h1
  obtain ⟨G, hG⟩ := rep_ex p256_a p256_b l3 sm _ og
  have hQ0 : Q ≠ 0 := by
    intro e; subst e
    cases s with
    | Inf => exact h2 rfl
    | Aff x y => obtain ⟨_, _, _, _, h, e⟩ := hQ; exact Point.some_ne_zero h e.symm
  have hG0 : G ≠ 0 := by
    intro e; subst e
    obtain ⟨_, _, _, _, h, e⟩ := hG; exact Point.some_ne_zero h e.symm
  have hNG : N • G = 0 := rep_zero p256_a p256_b l3 N _ G hG hg
  have oG : addOrderOf G = N := addOrderOf_eq_prime hNG hG0
  have dv : N ∣ Fintype.card (W P p256_a p256_b).Point := oG ▸ addOrderOf_dvd_card
  obtain ⟨m, hm⟩ := dv
  have le := card_le (p := P) p256_a p256_b
  have m0 : m ≠ 0 := by
    intro e; rw [e, mul_zero] at hm; exact Fintype.card_ne_zero hm
  have m2 : m < 3 := by
    by_contra c
    have : N * 3 ≤ N * m := Nat.mul_le_mul_left _ (not_lt.1 c)
    have : N * 3 ≤ 2 * (P + 1) := this.trans (hm ▸ le)
    norm_num [N, P] at this
  have m1 : m = 1 := by
    by_contra c
    have e2 : m = 2 := by omega
    have : Fact (Nat.Prime 2) := ⟨Nat.prime_two⟩
    obtain ⟨R, hR⟩ := exists_prime_addOrderOf_dvd_card (G := (W P p256_a p256_b).Point) 2 (by rw [hm, e2]; exact dvd_mul_left _ _)
    have r2 : R + R = 0 := by
      have := addOrderOf_nsmul_eq_zero R
      rw [hR, two_nsmul] at this; exact this
    have r0 : R ≠ 0 := by
      intro e; rw [e, addOrderOf_zero] at hR; omega
    cases R with
    | zero => exact r0 rfl
    | some x y h =>
      have hy : y = (W P p256_a p256_b).negY x y := by
        by_contra c'
        have := Point.add_some (W := W P p256_a p256_b) (x₁ := x) (x₂ := x) (y₁ := y) (y₂ := y) (h₁ := h) (h₂ := h) (fun hh => c' hh.2)
        rw [this] at r2
        exact Point.some_ne_zero _ r2
      simp only [negY, zero_mul, sub_zero] at hy
      have two : (2 : ZMod P) ≠ 0 := by
        intro e
        have : ((2 : ℕ) : ZMod P) = 0 := by exact_mod_cast e
        rw [ZMod.natCast_eq_zero_iff] at this
        have := Nat.le_of_dvd (by norm_num) this
        norm_num [P] at this
      have y0 : y = 0 := by
        have : 2 * y = 0 := by linear_combination hy
        exact (mul_eq_zero.1 this).resolve_left two
      have eq := (equation_iff _ _).1 h.1
      subst y0
      refine no_root x ?_
      have ea : ((p256_a : ℤ) : ZMod P) = -3 := by
        have : ((p256_a : ℤ) : ZMod P) = ((-3 : ℤ) : ZMod P) := by rw [zc]; norm_num [p256_a, prime256, P]
        rw [this]; norm_num
      have eb : ((p256_b : ℤ) : ZMod P) = -((B : ℕ) : ZMod P) := by
        have : ((p256_b : ℤ) : ZMod P) = ((-((B : ℕ) : ℤ) : ℤ) : ZMod P) := by rw [zc]; norm_num [p256_b, B, P]
        rw [this, Int.cast_neg, Int.cast_natCast]
      simp only [zero_mul, add_zero, ea, eb] at eq
      linear_combination -eq
  have oQ : addOrderOf Q = N := by
    have d : addOrderOf Q ∣ N := by
      have := addOrderOf_dvd_card (x := Q)
      rw [hm, m1, mul_one] at this; exact this
    rcases (Nat.dvd_prime pN).1 d with e | e
    · exact absurd (AddMonoid.addOrderOf_eq_one_iff.1 e) hQ0
    · exact e
  intro c
  have hk : k • Q = 0 := rep_zero p256_a p256_b l3 k s Q hQ c
  have := Nat.le_of_dvd h3 (oQ ▸ addOrderOf_dvd_of_nsmul_eq_zero hk)
  omega
#print axioms axiom_p256_prime_order
