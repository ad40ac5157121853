package value
immutable gpb., elems.*gpb.

// ---- value equality ----
def vof(tv *gpb.TypedValue) = ite(tv == nil, nil, tv.Value)
def isS(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_StringVal)
def isI(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_IntVal)
def isU(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_UintVal)
def isB(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_BoolVal)
def isY(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_BytesVal)
def isD(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_DoubleVal)
def isF(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_FloatVal)
def isDec(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_DecimalVal)
def isLL(a *gpb.TypedValue) = typeis(vof(a), *gpb.TypedValue_LeaflistVal)
def digits(d *gpb.Decimal64) = ite(d == nil, 0, d.Digits)
def prec(d *gpb.Decimal64) = ite(d == nil, 0, int(d.Precision))
def ll(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_LeaflistVal).LeaflistVal
def lln(a *gpb.TypedValue) = ite(ll(a) == nil, 0, len(ll(a).Element))

// teq(a, b): a and b hold the same arm of the oneof and the same scalar (or element-wise equal scalars)
uf teq(*gpb.TypedValue, *gpb.TypedValue) bool
def scalarEq(a *gpb.TypedValue, b *gpb.TypedValue) = (isS(a) && isS(b) && vof(a).(*gpb.TypedValue_StringVal).StringVal == vof(b).(*gpb.TypedValue_StringVal).StringVal) \
  || (isI(a) && isI(b) && vof(a).(*gpb.TypedValue_IntVal).IntVal == vof(b).(*gpb.TypedValue_IntVal).IntVal) \
  || (isU(a) && isU(b) && vof(a).(*gpb.TypedValue_UintVal).UintVal == vof(b).(*gpb.TypedValue_UintVal).UintVal) \
  || (isB(a) && isB(b) && vof(a).(*gpb.TypedValue_BoolVal).BoolVal == vof(b).(*gpb.TypedValue_BoolVal).BoolVal) \
  || (isY(a) && isY(b) && string(vof(a).(*gpb.TypedValue_BytesVal).BytesVal) == string(vof(b).(*gpb.TypedValue_BytesVal).BytesVal)) \
  || (isD(a) && isD(b) && vof(a).(*gpb.TypedValue_DoubleVal).DoubleVal == vof(b).(*gpb.TypedValue_DoubleVal).DoubleVal) \
  || (isF(a) && isF(b) && vof(a).(*gpb.TypedValue_FloatVal).FloatVal == vof(b).(*gpb.TypedValue_FloatVal).FloatVal) \
  || (isDec(a) && isDec(b) && digits(vof(a).(*gpb.TypedValue_DecimalVal).DecimalVal) == digits(vof(b).(*gpb.TypedValue_DecimalVal).DecimalVal) && prec(vof(a).(*gpb.TypedValue_DecimalVal).DecimalVal) == prec(vof(b).(*gpb.TypedValue_DecimalVal).DecimalVal))
axiom teq_scalar(a *gpb.TypedValue, b *gpb.TypedValue) -- definition of value equality away from leaf-lists
  requires !(isLL(a) && isLL(b))
  ensures teq(a, b) == scalarEq(a, b)
axiom teq_leaflist(a *gpb.TypedValue, b *gpb.TypedValue) -- definition of value equality on leaf-lists: element-wise
  requires isLL(a) && isLL(b)
  ensures teq(a, b) == (lln(a) == lln(b) && forall(i, int, 0 <= i && i < lln(a) ==> teq(ll(a).Element[i], ll(b).Element[i])))

// messages are finite trees
uf depth(*gpb.TypedValue) int
axiom depth_pos(a *gpb.TypedValue) -- protobuf messages are finite trees: nesting depth
  ensures depth(a) >= 0
  pattern depth(a)
axiom depth_elem(a *gpb.TypedValue) -- an element of a leaf-list is nested strictly less deep
  requires isLL(a)
  ensures forall(i, int, 0 <= i && i < lln(a) ==> depth(ll(a).Element[i]) < depth(a))
lemma teq_sym(k int, a *gpb.TypedValue, b *gpb.TypedValue)
  props C19
  induct k
  use depth_pos
  requires depth(a) < k
  ensures by(depth_elem(a), depth_elem(b), teq_scalar(a, b), teq_leaflist(a, b), teq_scalar(b, a), teq_leaflist(b, a), teq(a, b) == teq(b, a))

func Equal(a, b)
  props C19 C12
  flags safety wirewf nonblocking
  ensures equal-iff-same-value: by(teq_scalar(a, b), teq_leaflist(a, b), result == teq(a, b))
  loop 1
    invariant forall(j, int, 0 <= j && j < iter ==> teq(ll(a).Element[j], ll(b).Element[j]))

// ---- Go scalar -> TypedValue -> Go scalar ----
// enc(i, tv): tv carries the scalar i (widened to 64 bits)
def sv1(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_StringVal).StringVal
def iv1(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_IntVal).IntVal
def uv1(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_UintVal).UintVal
def bv1(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_BoolVal).BoolVal
def dv1(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_DoubleVal).DoubleVal
def fv1(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_FloatVal).FloatVal
def yv1(a *gpb.TypedValue) = vof(a).(*gpb.TypedValue_BytesVal).BytesVal

def encInt(i any, tv *gpb.TypedValue) = (typeis(i, int) ==> isI(tv) && iv1(tv) == int64(i.(int))) \
  && (typeis(i, int8) ==> isI(tv) && iv1(tv) == int64(i.(int8))) && (typeis(i, int16) ==> isI(tv) && iv1(tv) == int64(i.(int16))) \
  && (typeis(i, int32) ==> isI(tv) && iv1(tv) == int64(i.(int32))) && (typeis(i, int64) ==> isI(tv) && iv1(tv) == i.(int64))
def encUint(i any, tv *gpb.TypedValue) = (typeis(i, uint) ==> isU(tv) && uv1(tv) == uint64(i.(uint))) \
  && (typeis(i, uint8) ==> isU(tv) && uv1(tv) == uint64(i.(uint8))) && (typeis(i, uint16) ==> isU(tv) && uv1(tv) == uint64(i.(uint16))) \
  && (typeis(i, uint32) ==> isU(tv) && uv1(tv) == uint64(i.(uint32))) && (typeis(i, uint64) ==> isU(tv) && uv1(tv) == i.(uint64))
def enc1(i any, tv *gpb.TypedValue) = encInt(i, tv) && encUint(i, tv) && (typeis(i, string) ==> isS(tv) && sv1(tv) == i.(string)) \
  && (typeis(i, bool) ==> isB(tv) && bv1(tv) == i.(bool)) \
  && (typeis(i, float32) ==> isD(tv) && dv1(tv) == float64(i.(float32))) && (typeis(i, float64) ==> isD(tv) && dv1(tv) == i.(float64))
def supported(i any) = typeis(i, string) || typeis(i, int) || typeis(i, int8) || typeis(i, int16) || typeis(i, int32) || typeis(i, int64) \
  || typeis(i, uint) || typeis(i, uint8) || typeis(i, uint16) || typeis(i, uint32) || typeis(i, uint64) || typeis(i, float32) || typeis(i, float64) \
  || typeis(i, bool) || typeis(i, []string) || typeis(i, []byte) || typeis(i, []interface{})
// den1(tv, i): i is the native Go value of the scalar tv
def den1(tv *gpb.TypedValue, i any) = (isS(tv) ==> typeis(i, string) && i.(string) == sv1(tv)) && (isI(tv) ==> typeis(i, int64) && i.(int64) == iv1(tv)) \
  && (isU(tv) ==> typeis(i, uint64) && i.(uint64) == uv1(tv)) && (isB(tv) ==> typeis(i, bool) && i.(bool) == bv1(tv)) \
  && (isD(tv) ==> typeis(i, float64) && i.(float64) == dv1(tv)) && (isF(tv) ==> typeis(i, float32) && i.(float32) == fv1(tv))
// rt(i, j): j is i up to integer width and float precision
def rt(i any, j any) = (typeis(i, string) ==> typeis(j, string) && i.(string) == j.(string)) && (typeis(i, bool) ==> typeis(j, bool) && i.(bool) == j.(bool)) \
  && (typeis(i, int) ==> typeis(j, int64) && j.(int64) == int64(i.(int))) && (typeis(i, int8) ==> typeis(j, int64) && j.(int64) == int64(i.(int8))) \
  && (typeis(i, int16) ==> typeis(j, int64) && j.(int64) == int64(i.(int16))) && (typeis(i, int32) ==> typeis(j, int64) && j.(int64) == int64(i.(int32))) \
  && (typeis(i, int64) ==> typeis(j, int64) && j.(int64) == i.(int64)) && (typeis(i, uint) ==> typeis(j, uint64) && j.(uint64) == uint64(i.(uint))) \
  && (typeis(i, uint8) ==> typeis(j, uint64) && j.(uint64) == uint64(i.(uint8))) && (typeis(i, uint16) ==> typeis(j, uint64) && j.(uint64) == uint64(i.(uint16))) \
  && (typeis(i, uint32) ==> typeis(j, uint64) && j.(uint64) == uint64(i.(uint32))) && (typeis(i, uint64) ==> typeis(j, uint64) && j.(uint64) == i.(uint64)) \
  && (typeis(i, float32) ==> typeis(j, float64) && j.(float64) == float64(i.(float32))) && (typeis(i, float64) ==> typeis(j, float64) && j.(float64) == i.(float64))
lemma scalar_round_trip(i any, tv *gpb.TypedValue, j any)
  props C19
  requires enc1(i, tv) && den1(tv, j)
  ensures rt(i, j)

func FromScalar(i)
  props C19
  flags safety
  ensures unsupported-rejected: result1 == nil ==> supported(i) && result0 != nil && fresh(result0)
  ensures rejected-gives-nothing: result1 != nil ==> result0 == nil
  ensures supported-accepted: supported(i) && !typeis(i, string) && !typeis(i, []interface{}) ==> result1 == nil
  ensures scalar-carried: result1 == nil ==> enc1(i, result0)
  ensures bytes-carried: result1 == nil && typeis(i, []byte) ==> isY(result0) && string(yv1(result0)) == string(i.([]byte))
  ensures strings-carried: result1 == nil && typeis(i, []string) ==> isLL(result0) && ll(result0) != nil && len(ll(result0).Element) == len(i.([]string)) \
    && forall(k, int, 0 <= k && k < len(i.([]string)) ==> isS(ll(result0).Element[k]) && sv1(ll(result0).Element[k]) == i.([]string)[k])
  ensures list-carried: result1 == nil && typeis(i, []interface{}) ==> isLL(result0) && ll(result0) != nil && len(ll(result0).Element) == len(i.([]interface{})) \
    && forall(k, int, 0 <= k && k < len(i.([]interface{})) ==> enc1(i.([]interface{})[k], ll(result0).Element[k]))
  loop 1
    invariant len(sa.Element) == len(i.([]string))
    invariant forall(k, int, 0 <= k && k < iter ==> allocated(sa.Element[k]) && allocated(sa.Element[k].Value.(*gpb.TypedValue_StringVal)))
    invariant forall(k, int, 0 <= k && k < iter ==> isS(sa.Element[k]) && sv1(sa.Element[k]) == i.([]string)[k])
  loop 2
    invariant forall(k, int, 0 <= k && k < iter ==> enc1(i.([]interface{})[k], sa.Element[k]))
    invariant len(sa.Element) == len(i.([]interface{}))

func ToScalar(tv)
  props C19 C12
  flags safety wirewf
  ensures scalar-recovered: result1 == nil ==> den1(tv, result0)
  ensures bytes-recovered: result1 == nil && isY(tv) ==> typeis(result0, []byte) && string(result0.([]byte)) == string(yv1(tv))
  ensures scalars-accepted: isS(tv) || isI(tv) || isU(tv) || isB(tv) || isD(tv) || isF(tv) || isY(tv) || isDec(tv) ==> result1 == nil
  ensures list-recovered: result1 == nil && isLL(tv) ==> typeis(result0, []interface{}) && len(result0.([]interface{})) == lln(tv) \
    && forall(k, int, 0 <= k && k < lln(tv) ==> den1(ll(tv).Element[k], result0.([]interface{})[k]))
  loop 1
    invariant forall(k, int, 0 <= k && k < iter ==> den1(ll(tv).Element[k], ss[k]))
    invariant len(ss) == lln(tv)
