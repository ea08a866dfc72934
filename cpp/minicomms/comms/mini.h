// A small functional stand-in for the part of the COMMS library (not available offline) which the generated code uses.
// Every header of comms/ includes this one. It favours being short and obviously right over speed and small footprint.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <ratio>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define COMMS_ASSERT(e_) assert(e_)
#define COMMS_MAKE_VERSION(ma_, mi_, pa_) ((((unsigned)(ma_)) << 24) | (((unsigned)(mi_)) << 8) | ((unsigned)(pa_)))
#define COMMS_VERSION COMMS_MAKE_VERSION(5, 5, 1)
#define COMMS_MSVC_WARNING_PUSH
#define COMMS_MSVC_WARNING_POP
#define COMMS_MSVC_WARNING_DISABLE(x_)
#define COMMS_MSVC_WARNING_SUPPRESS(x_)
#define COMMS_GNU_WARNING_PUSH
#define COMMS_GNU_WARNING_POP
#define COMMS_GNU_WARNING_DISABLE(x_)

namespace comms
{
constexpr unsigned version() { return COMMS_VERSION; }

enum class ErrorStatus { Success, UpdateRequired, NotEnoughData, ProtocolError, BufferOverflow, InvalidMsgId, InvalidMsgData,
    MsgAllocFailure, NotSupported, NumOfErrorStatuses };
enum class MsgFactoryCreateFailureReason { None, InvalidId, AllocFailure, NumOfValues };
namespace field { enum class OptionalMode { Tentative, Exists, Missing, NumOfModes }; }

// ------------------------------------------------------------------------------------------------------------ options
namespace kind
{
struct Ignored {};
#define K_(n_) struct n_ {};
K_(Endian) K_(FixedLength) K_(FixedBitLength) K_(VarLength) K_(NumValueSerOffset) K_(DefaultNum) K_(ValidNum) K_(InvalidByDefault)
K_(FailOnInvalid) K_(IgnoreInvalid) K_(EmptySerialization) K_(VersionStorage) K_(HasVersionDependentMembers) K_(ScalingRatio) K_(Units)
K_(DisplayOffset) K_(FixedValue) K_(PseudoValue) K_(Reserved) K_(SizePrefix) K_(SerLengthPrefix) K_(ElemLengthPrefix) K_(FixedElemLengthPrefix)
K_(TermSuffix) K_(TrailSuffix) K_(FixedSize) K_(SizeForcing) K_(LengthForcing) K_(ElemLengthForcing) K_(OptionalDefault) K_(MissingOnReadFail)
K_(MissingOnInvalid) K_(ExistsBetween) K_(RemLengthMember) K_(StaticNumId) K_(FieldsImpl) K_(MsgType) K_(MsgIdType) K_(ExtraTransportFields)
K_(VersionInTransport) K_(FieldType) K_(MsgFactoryTempl) K_(VerifyBeforeRead) K_(SeekField) K_(Handler) K_(ReadIterator) K_(WriteIterator)
K_(ExtendingClass) K_(AvailableLengthLimit) K_(VariantReset) K_(SupportGenericMessage) K_(HasName) K_(HasCustomRead) K_(HasCustomWrite) K_(HasCustomRefresh)
K_(FixedStorage) K_(FixedSizeStorage) K_(DataView) K_(NoRead) K_(NoWrite) K_(NoRefresh) K_(NoDispatch) K_(InPlace)
#undef K_
}

struct BigEndianTag {};
struct LittleEndianTag {};

namespace option
{
#define T_(n_, k_) struct n_ { using Kind = kind::k_; };
namespace def
{
struct BigEndian { using Kind = kind::Endian; static constexpr bool Big = true; };
struct LittleEndian { using Kind = kind::Endian; static constexpr bool Big = false; };
template <std::size_t N, bool S = true> struct FixedLength { using Kind = kind::FixedLength; static constexpr std::size_t Len = N; static constexpr bool Sign = S; };
template <std::size_t N, bool S = true> struct FixedBitLength { using Kind = kind::FixedBitLength; static constexpr std::size_t Len = N; static constexpr bool Sign = S; };
template <std::size_t A, std::size_t B> struct VarLength { using Kind = kind::VarLength; static constexpr std::size_t Min = A, Max = B; };
template <std::intmax_t N> struct NumValueSerOffset { using Kind = kind::NumValueSerOffset; static constexpr std::intmax_t Value = N; };
template <std::intmax_t N> struct DefaultNumValue { using Kind = kind::DefaultNum; static constexpr __int128 Value = N; };
template <std::uintmax_t N> struct DefaultBigUnsignedNumValue { using Kind = kind::DefaultNum; static constexpr __int128 Value = N; };
template <std::intmax_t A, std::intmax_t B> struct ValidNumValueRange { using Kind = kind::ValidNum; static constexpr __int128 Min = A, Max = B; static_assert(A <= B, "range"); };
template <std::intmax_t A> struct ValidNumValue { using Kind = kind::ValidNum; static constexpr __int128 Min = A, Max = A; };
template <std::uintmax_t A, std::uintmax_t B> struct ValidBigUnsignedNumValueRange { using Kind = kind::ValidNum; static constexpr __int128 Min = A, Max = B; static_assert(A <= B, "range"); };
template <std::uintmax_t A> struct ValidBigUnsignedNumValue { using Kind = kind::ValidNum; static constexpr __int128 Min = A, Max = A; };
T_(InvalidByDefault, InvalidByDefault)
template <ErrorStatus E = ErrorStatus::InvalidMsgData> struct FailOnInvalid { using Kind = kind::FailOnInvalid; static constexpr ErrorStatus Es = E; };
T_(IgnoreInvalid, IgnoreInvalid)
T_(EmptySerialization, EmptySerialization)
T_(VersionStorage, VersionStorage)
template <bool B> struct HasVersionDependentMembers { using Kind = kind::HasVersionDependentMembers; static constexpr bool Value = B; };
template <std::intmax_t A, std::intmax_t B> struct ScalingRatio { using Kind = kind::ScalingRatio; static constexpr std::intmax_t Num = A, Den = B; };
template <std::intmax_t A> struct DisplayOffset { using Kind = kind::DisplayOffset; static constexpr std::intmax_t Value = A; };
T_(FixedValue, FixedValue)
T_(PseudoValue, PseudoValue)
template <std::uintmax_t M, std::uintmax_t V = 0> struct BitmaskReservedBits { using Kind = kind::Reserved; static constexpr std::uintmax_t Mask = M, Value = V; };
template <class F> struct SequenceSizeFieldPrefix { using Kind = kind::SizePrefix; using Type = F; };
template <class F> struct SequenceSerLengthFieldPrefix { using Kind = kind::SerLengthPrefix; using Type = F; };
template <class F> struct SequenceElemSerLengthFieldPrefix { using Kind = kind::ElemLengthPrefix; using Type = F; };
template <class F> struct SequenceElemFixedSerLengthFieldPrefix { using Kind = kind::FixedElemLengthPrefix; using Type = F; };
template <class F> struct SequenceTerminationFieldSuffix { using Kind = kind::TermSuffix; using Type = F; };
template <std::size_t N> struct SequenceFixedSize { using Kind = kind::FixedSize; static constexpr std::size_t Size = N; };
T_(SequenceSizeForcingEnabled, SizeForcing)
T_(SequenceLengthForcingEnabled, LengthForcing)
T_(SequenceElemLengthForcingEnabled, ElemLengthForcing)
struct ExistsByDefault { using Kind = kind::OptionalDefault; static constexpr auto Mode = field::OptionalMode::Exists; };
struct MissingByDefault { using Kind = kind::OptionalDefault; static constexpr auto Mode = field::OptionalMode::Missing; };
T_(MissingOnReadFail, MissingOnReadFail)
T_(MissingOnInvalid, MissingOnInvalid)
template <std::uintmax_t A, std::uintmax_t B> struct ExistsBetweenVersions { using Kind = kind::ExistsBetween; static constexpr std::uintmax_t From = A, Until = B; static_assert(A <= B, "range"); };
template <std::uintmax_t A> struct ExistsSinceVersion { using Kind = kind::ExistsBetween; static constexpr std::uintmax_t From = A, Until = (std::uintmax_t)-1; };
template <std::uintmax_t A> struct ExistsUntilVersion { using Kind = kind::ExistsBetween; static constexpr std::uintmax_t From = 0, Until = A; };
template <std::size_t I> struct RemLengthMemberField { using Kind = kind::RemLengthMember; static constexpr std::size_t Idx = I; };
template <std::intmax_t I> struct StaticNumIdImpl { using Kind = kind::StaticNumId; static constexpr std::intmax_t Id = I; };
template <class T> struct FieldsImpl { using Kind = kind::FieldsImpl; using Type = T; };
template <class T> struct MsgType { using Kind = kind::MsgType; using Type = T; };
template <class T> struct MsgIdType { using Kind = kind::MsgIdType; using Type = T; };
template <class T> struct ExtraTransportFields { using Kind = kind::ExtraTransportFields; using Type = T; };
template <std::size_t I> struct VersionInExtraTransportFields { using Kind = kind::VersionInTransport; static constexpr std::size_t Idx = I; };
template <class T> struct FieldType { using Kind = kind::FieldType; using Type = T; };
template <class T> struct ExtendingClass { using Kind = kind::ExtendingClass; using Type = T; };
template <class T = void> struct FrameLayerSeekField { using Kind = kind::SeekField; using Type = T; };
T_(FrameLayerVerifyBeforeRead, VerifyBeforeRead)
T_(FrameLayerSuppressReadUntilDataSplit, Ignored)
T_(AvailableLengthLimit, AvailableLengthLimit)
T_(VariantHasCustomResetOnDestruct, VariantReset)
T_(VariantHasCustomReset, VariantReset)
T_(HasCustomRead, HasCustomRead) T_(HasCustomWrite, HasCustomWrite) T_(HasCustomRefresh, HasCustomRefresh) T_(HasName, HasName) T_(HasDoGetId, Ignored)
T_(HasCustomId, Ignored)
#define U_(n_, g_, num_, den_) struct Units##n_ { using Kind = kind::Units; static const char* unitName() { return #n_; } static const char* group() { return #g_; } \
    static constexpr double Num = num_, Den = den_; };
#define UM_(S_, s_, g_) U_(Nano##s_, g_, 1., 1e9) U_(Micro##s_, g_, 1., 1e6) U_(Milli##s_, g_, 1., 1e3) U_(S_, g_, 1., 1.)
UM_(Seconds, seconds, Time) U_(Minutes, Time, 60., 1.) U_(Hours, Time, 3600., 1.) U_(Days, Time, 86400., 1.) U_(Weeks, Time, 604800., 1.)
UM_(Meters, meters, Distance) U_(Centimeters, Distance, 1., 100.) U_(Kilometers, Distance, 1000., 1.)
UM_(MetersPerSecond, metersPerSecond, Speed) U_(CentimetersPerSecond, Speed, 1., 100.) U_(KilometersPerSecond, Speed, 1000., 1.) U_(KilometersPerHour, Speed, 1000., 3600.)
U_(Hertz, Frequency, 1., 1.) U_(Kilohertz, Frequency, 1e3, 1.) U_(KiloHertz, Frequency, 1e3, 1.) U_(Megahertz, Frequency, 1e6, 1.) U_(MegaHertz, Frequency, 1e6, 1.) U_(Gigahertz, Frequency, 1e9, 1.) U_(GigaHertz, Frequency, 1e9, 1.)
U_(Degrees, Angle, 0.017453292519943295, 1.) U_(Radians, Angle, 1., 1.)
UM_(Amps, amps, Current) U_(Kiloamps, Current, 1e3, 1.) UM_(Volts, volts, Voltage) U_(Kilovolts, Voltage, 1e3, 1.)
U_(Bytes, Memory, 1., 1.) U_(Kilobytes, Memory, 1024., 1.) U_(Megabytes, Memory, 1048576., 1.) U_(Gigabytes, Memory, 1073741824., 1.) U_(Terabytes, Memory, 1099511627776., 1.)
#undef UM_
#undef U_
} // namespace def

namespace app
{
T_(EmptyOption, Ignored)
template <class T> struct ReadIterator { using Kind = kind::ReadIterator; using Type = T; };
template <class T> struct WriteIterator { using Kind = kind::WriteIterator; using Type = T; };
template <class T> struct Handler { using Kind = kind::Handler; using Type = T; };
T_(IdInfoInterface, Ignored) T_(ValidCheckInterface, Ignored) T_(LengthInfoInterface, Ignored) T_(RefreshInterface, Ignored) T_(NameInterface, Ignored)
T_(NoIdImpl, Ignored) T_(NoReadImpl, NoRead) T_(NoWriteImpl, NoWrite) T_(NoValidImpl, Ignored) T_(NoLengthImpl, Ignored) T_(NoRefreshImpl, NoRefresh)
T_(NoDispatchImpl, NoDispatch) T_(InPlaceAllocation, InPlace) T_(OrigDataView, DataView) T_(SequenceFixedSizeUseFixedSizeStorage, FixedSizeStorage)
T_(NoVirtualDestructor, Ignored)
template <std::size_t N> struct FixedSizeStorage { using Kind = kind::FixedStorage; static constexpr std::size_t Size = N; };
template <class T> struct SupportGenericMessage { using Kind = kind::SupportGenericMessage; using Type = T; };
template <template <class, class, class...> class F> struct MsgFactoryTempl { using Kind = kind::MsgFactoryTempl; template <class A, class B, class... C> using Type = F<A, B, C...>; };
template <template <class, class, class...> class F> struct MsgFactory { using Kind = kind::MsgFactoryTempl; template <class A, class B, class... C> using Type = F<A, B, C...>; };
} // namespace app
#undef T_
// the short names
using namespace def;
using namespace app;
} // namespace option

template <class... O> class Field;

namespace det
{
template <class... T> struct L {};
template <class A, class B> struct Cat;
template <class... A, class... B> struct Cat<L<A...>, L<B...>> { using type = L<A..., B...>; };
template <class T> struct Flat { using type = L<T>; };
template <class... T> struct FlatAll { using type = L<>; };
template <class A, class... R> struct FlatAll<A, R...> { using type = typename Cat<typename Flat<A>::type, typename FlatAll<R...>::type>::type; };
template <> struct Flat<option::app::EmptyOption> { using type = L<>; };
template <class... T> struct Flat<std::tuple<T...>> { using type = typename FlatAll<T...>::type; };
template <class... T> struct Flat<Field<T...>> { using type = typename FlatAll<T...>::type; };

template <class T> struct Id { using type = T; using Type = T; };
template <class K, class List> struct Find;
template <class K> struct Find<K, L<>> { using type = void; };
template <class K, class A, class... R> struct Find<K, L<A, R...>> : std::conditional_t<std::is_same_v<K, typename A::Kind>, Id<A>, Find<K, L<R...>>> {};
template <class K, class List> using find = typename Find<K, List>::type;
template <class K, class List> inline constexpr bool has = !std::is_void_v<find<K, List>>;

template <class List> struct ValidNums;
template <class... T> struct ValidNums<L<T...>>
{
    static constexpr bool any() { return (false || ... || std::is_same_v<kind::ValidNum, typename T::Kind>); }
    template <class A> static constexpr bool one(__int128 v)
    {
        if constexpr (std::is_same_v<kind::ValidNum, typename A::Kind>) return A::Min <= v && v <= A::Max; else return false;
    }
    static constexpr bool test(__int128 v) { return (false || ... || one<T>(v)); }
};

template <class TIter> std::uint8_t getByte(TIter& it) { auto v = static_cast<std::uint8_t>(*it); ++it; return v; }
template <class TIter> void putByte(TIter& it, std::uint8_t v) { *it = v; ++it; }
template <class TIter> std::uint64_t getUInt(TIter& it, std::size_t n, bool big)
{
    std::uint64_t v = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto b = static_cast<std::uint64_t>(getByte(it));
        if (big) v = (v << 8) | b; else v |= b << (8 * i);
    }
    return v;
}
template <class TIter> void putUInt(TIter& it, std::uint64_t v, std::size_t n, bool big)
{
    for (std::size_t i = 0; i < n; ++i) putByte(it, static_cast<std::uint8_t>(v >> (8 * (big ? n - 1 - i : i))));
}
inline std::int64_t signExtend(std::uint64_t v, unsigned bits)
{
    if (bits >= 64) return static_cast<std::int64_t>(v);
    v &= (std::uint64_t(1) << bits) - 1;
    if (v & (std::uint64_t(1) << (bits - 1))) v |= ~((std::uint64_t(1) << bits) - 1);
    return static_cast<std::int64_t>(v);
}
} // namespace det

template <class... O>
class Field
{
public:
    using FieldOpts = typename det::FlatAll<O...>::type;
    static constexpr bool BigEnd = det::find<kind::Endian, FieldOpts>::Big;
    using Endian = std::conditional_t<BigEnd, BigEndianTag, LittleEndianTag>;
    using VersionType = unsigned;
};

enum class Cat { Int, Enum, Bitmask, Float, String, Raw, List, Bundle, Bitfield, Optional, Variant };

// ---------------------------------------------------------------------------------------------------------- field base
namespace field
{
namespace tag
{
#define G_(n_) struct n_ {};
G_(Int) G_(Enum) G_(Bitmask) G_(Float) G_(String) G_(RawArrayList) G_(ArrayList) G_(Bundle) G_(Bitfield) G_(Optional) G_(Variant)
#undef G_
}

template <class FB, class... O>
class Common : public FB
{
public:
    using AllOpts = typename det::FlatAll<O..., FB>::type;
    template <class K> using Opt = det::find<K, AllOpts>;
    template <class K> static constexpr bool hasOpt() { return det::has<K, AllOpts>; }
    using VersionType = unsigned;

    VersionType getVersion() const { return m_version; }
    static constexpr bool hasFixedValue() { return hasOpt<kind::FixedValue>(); }
    static constexpr bool hasEmptySerialization() { return hasOpt<kind::EmptySerialization>() || hasOpt<kind::PseudoValue>(); }

protected:
    bool storeVersion(VersionType v)
    {
        if (m_version == v) return false;
        m_version = v;
        return true;
    }
    template <class S> static ErrorStatus checked(const S& s, ErrorStatus es)
    {
        if constexpr (hasOpt<kind::FailOnInvalid>()) {
            if constexpr (hasOpt<kind::FieldType>()) {
                if (es == ErrorStatus::Success && !static_cast<const typename Opt<kind::FieldType>::Type&>(s).valid()) return Opt<kind::FailOnInvalid>::Es;
            }
            else {
                if (es == ErrorStatus::Success && !s.valid()) return Opt<kind::FailOnInvalid>::Es;
            }
        }
        return es;
    }
private:
    VersionType m_version = 0;
};

template <class F> bool setVersionOf(F& f, unsigned v)
{
    if constexpr (F::isVersionDependent()) return f.setVersion(v); else return false;
}

// ---------------------------------------------------------------------------------------------------------- numbers
template <class FB, class T, class... O>
class NumBase : public Common<FB, O...>
{
    using C = Common<FB, O...>;
protected:
    template <class X, bool E> struct Und { using type = X; };
    template <class X> struct Und<X, true> { using type = std::underlying_type_t<X>; };
public:
    using ValueType = T;
    using NumType = typename Und<T, std::is_enum_v<T>>::type;
    using typename C::AllOpts;
    template <class K> using Opt = typename C::template Opt<K>;
    template <class K> static constexpr bool hasOpt() { return C::template hasOpt<K>(); }
    static constexpr bool Signed = std::is_signed_v<NumType>;

    NumBase()
    {
        if constexpr (hasOpt<kind::DefaultNum>()) m_value = static_cast<T>(static_cast<NumType>(Opt<kind::DefaultNum>::Value));
    }
    explicit NumBase(T v) : m_value(v) {}

    const ValueType& value() const { return m_value; }
    ValueType& value() { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <class U> void setValue(U&& v) { if constexpr (!hasOpt<kind::FixedValue>()) m_value = static_cast<ValueType>(v); else static_cast<void>(v); }
    void forceValue(ValueType v) { m_value = v; }

    static constexpr bool isVar() { return hasOpt<kind::VarLength>(); }
    static constexpr unsigned serBits()
    {
        if constexpr (hasOpt<kind::FixedBitLength>()) return Opt<kind::FixedBitLength>::Len;
        else if constexpr (hasOpt<kind::FixedLength>()) return 8 * Opt<kind::FixedLength>::Len;
        else return 8 * sizeof(NumType);
    }
    static constexpr bool signExt()
    {
        if constexpr (hasOpt<kind::FixedBitLength>()) return Opt<kind::FixedBitLength>::Sign;
        else if constexpr (hasOpt<kind::FixedLength>()) return Opt<kind::FixedLength>::Sign;
        else return true;
    }
    static constexpr std::size_t serLen() { return (serBits() + 7) / 8; }
    static constexpr std::intmax_t serOffset() { if constexpr (hasOpt<kind::NumValueSerOffset>()) return Opt<kind::NumValueSerOffset>::Value; else return 0; }
    static constexpr std::size_t minLength()
    {
        if constexpr (C::hasEmptySerialization()) return 0; else if constexpr (isVar()) return Opt<kind::VarLength>::Min; else if constexpr (hasOpt<kind::AvailableLengthLimit>()) return 1; else return serLen();
    }
    static constexpr std::size_t maxLength()
    {
        if constexpr (C::hasEmptySerialization()) return 0; else if constexpr (isVar()) return Opt<kind::VarLength>::Max; else return serLen();
    }
    static constexpr std::size_t minBitLength() { if constexpr (hasOpt<kind::FixedBitLength>()) return serBits(); else return minLength() * 8; }

    // value on the wire
    std::uint64_t serValue() const
    {
        auto v = static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<NumType>(m_value)));
        if constexpr (!Signed) v = static_cast<std::uint64_t>(static_cast<NumType>(m_value));
        return v + static_cast<std::uint64_t>(serOffset());
    }
    void fromSer(std::uint64_t v) { m_value = static_cast<T>(static_cast<NumType>(v - static_cast<std::uint64_t>(serOffset()))); }

    std::size_t length() const
    {
        if constexpr (C::hasEmptySerialization()) return 0;
        else if constexpr (isVar()) return varBytes().size();
        else return serLen();
    }
    bool canWrite() const { return true; }
    bool refresh() { return false; }
    bool valid() const
    {
        if constexpr (std::is_floating_point_v<NumType>) return !hasOpt<kind::InvalidByDefault>();
        else if constexpr (hasOpt<kind::InvalidByDefault>() && !det::ValidNums<AllOpts>::any()) return false;
        else if constexpr (det::ValidNums<AllOpts>::any()) return det::ValidNums<AllOpts>::test(static_cast<__int128>(static_cast<NumType>(m_value)));
        else return true;
    }
    template <class TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if constexpr (C::hasEmptySerialization()) { static_cast<void>(iter); static_cast<void>(len); return ErrorStatus::Success; }
        else return C::checked(*this, readNum(iter, len));
    }
    template <class TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if constexpr (C::hasEmptySerialization()) { static_cast<void>(iter); static_cast<void>(len); return ErrorStatus::Success; }
        else {
            if (len < length()) return ErrorStatus::BufferOverflow;
            writeNoStatus(iter);
            return ErrorStatus::Success;
        }
    }
    template <class TIter> void writeNoStatus(TIter& iter) const
    {
        if constexpr (C::hasEmptySerialization()) { static_cast<void>(iter); }
        else if constexpr (std::is_floating_point_v<NumType>) {
            std::conditional_t<sizeof(NumType) == 4, std::uint32_t, std::uint64_t> raw;
            auto v = m_value;
            std::memcpy(&raw, &v, sizeof raw);
            det::putUInt(iter, raw, sizeof raw, FB::BigEnd);
        }
        else if constexpr (isVar()) { for (auto b : varBytes()) det::putByte(iter, b); }
        else {
            auto v = serValue();
            if constexpr (hasOpt<kind::FixedBitLength>()) { if (serBits() < 64) v &= (std::uint64_t(1) << serBits()) - 1; }
            det::putUInt(iter, v, serLen(), FB::BigEnd);
        }
    }
    template <class TIter> void readNoStatus(TIter& iter) { readNum(iter, std::numeric_limits<std::size_t>::max()); }

    static constexpr bool isVersionDependent() { return hasOpt<kind::VersionStorage>(); }
    bool setVersion(unsigned v) { if constexpr (isVersionDependent()) return C::storeVersion(v); else return false; }

    bool operator==(const NumBase& o) const { return m_value == o.m_value; }
    bool operator!=(const NumBase& o) const { return !(*this == o); }
    bool operator<(const NumBase& o) const { return m_value < o.m_value; }

private:
    std::vector<std::uint8_t> varBytes() const
    {
        std::vector<std::uint8_t> r;      // low group first
        auto v = serValue();
        while (true) {
            std::uint8_t b = v & 0x7f;
            if constexpr (Signed) {
                auto s = static_cast<std::int64_t>(v) >> 7;
                v = static_cast<std::uint64_t>(s);
                r.push_back(b);
                if ((s == 0 && !(b & 0x40)) || (s == -1 && (b & 0x40))) break;
            } else {
                v >>= 7;
                r.push_back(b);
                if (v == 0) break;
            }
        }
        if constexpr (isVar()) {
            while (r.size() < Opt<kind::VarLength>::Min) r.push_back((Signed && (r.back() & 0x40)) ? 0x7f : 0);
        }
        if (FB::BigEnd) std::reverse(r.begin(), r.end());
        for (std::size_t i = 0; i + 1 < r.size(); ++i) r[i] |= 0x80;
        return r;
    }
    template <class TIter> ErrorStatus readNum(TIter& iter, std::size_t len)
    {
        if constexpr (std::is_floating_point_v<NumType>) {
            if (len < sizeof(NumType)) return ErrorStatus::NotEnoughData;
            using Raw = std::conditional_t<sizeof(NumType) == 4, std::uint32_t, std::uint64_t>;
            auto raw = static_cast<Raw>(det::getUInt(iter, sizeof(NumType), FB::BigEnd));
            std::memcpy(&m_value, &raw, sizeof raw);
        }
        else if constexpr (isVar()) {
            std::vector<std::uint8_t> bytes;
            while (true) {
                if (len <= bytes.size()) return ErrorStatus::NotEnoughData;
                if (bytes.size() >= Opt<kind::VarLength>::Max) return ErrorStatus::ProtocolError;
                auto b = det::getByte(iter);
                bytes.push_back(b & 0x7f);
                if (!(b & 0x80)) break;
            }
            if (bytes.size() < Opt<kind::VarLength>::Min) return ErrorStatus::ProtocolError;
            if (FB::BigEnd) std::reverse(bytes.begin(), bytes.end());
            std::uint64_t v = 0;
            for (std::size_t i = 0; i < bytes.size(); ++i) { if (7 * i < 64) v |= std::uint64_t(bytes[i]) << (7 * i); }
            if constexpr (Signed) v = static_cast<std::uint64_t>(det::signExtend(v, static_cast<unsigned>(std::min<std::size_t>(64, 7 * bytes.size()))));
            fromSer(v);
        }
        else {
            auto n = serLen();
            if constexpr (hasOpt<kind::AvailableLengthLimit>()) { if (0 < len && len < n) n = len; }
            if (len < n) return ErrorStatus::NotEnoughData;
            auto v = det::getUInt(iter, n, FB::BigEnd);
            if constexpr (serBits() < 64) v &= (std::uint64_t(1) << serBits()) - 1;
            if (Signed && signExt()) v = static_cast<std::uint64_t>(det::signExtend(v, serBits()));
            fromSer(v);
        }
        return ErrorStatus::Success;
    }
    T m_value = T();
};

template <class FB, class T, class... O>
class IntValue : public NumBase<FB, T, O...>
{
    using B = NumBase<FB, T, O...>;
public:
    static constexpr auto category = Cat::Int;
    using CommsTag = tag::Int;
    using B::B;
    IntValue() = default;
    static constexpr std::intmax_t scaleNum() { if constexpr (B::template hasOpt<kind::ScalingRatio>()) return B::template Opt<kind::ScalingRatio>::Num; else return 1; }
    static constexpr std::intmax_t scaleDen() { if constexpr (B::template hasOpt<kind::ScalingRatio>()) return B::template Opt<kind::ScalingRatio>::Den; else return 1; }
    static constexpr bool hasScaling() { return scaleNum() != scaleDen(); }
    template <class R> R scaleAs() const { return static_cast<R>((static_cast<R>(B::getValue()) * static_cast<R>(scaleNum())) / static_cast<R>(scaleDen())); }
    template <class R> R getScaled() const { return scaleAs<R>(); }
    template <class R> void setScaled(R v) { auto x = (static_cast<long double>(v) * scaleDen()) / scaleNum(); B::setValue(static_cast<T>(std::is_integral_v<R> ? x : std::round(x))); }
    static constexpr std::intmax_t displayOffset() { if constexpr (B::template hasOpt<kind::DisplayOffset>()) return B::template Opt<kind::DisplayOffset>::Value; else return 0; }
    std::intmax_t getDisplayValue() const { return static_cast<std::intmax_t>(B::getValue()) + displayOffset(); }
    template <class R> void setDisplayValue(R v) { B::setValue(static_cast<T>(v - displayOffset())); }
};

template <class FB, class T, class... O>
class EnumValue : public NumBase<FB, T, O...>
{
    using B = NumBase<FB, T, O...>;
public:
    static constexpr auto category = Cat::Enum;
    using CommsTag = tag::Enum;
    using B::B;
    EnumValue() = default;
};

template <class FB, class T, class... O>
class FloatValue : public NumBase<FB, T, O...>
{
    using B = NumBase<FB, T, O...>;
public:
    static constexpr auto category = Cat::Float;
    using CommsTag = tag::Float;
    using B::B;
    FloatValue() = default;
};

namespace det2
{
template <std::size_t N> struct UIntOf { using type = std::conditional_t<(N <= 1), std::uint8_t, std::conditional_t<(N <= 2), std::uint16_t, std::conditional_t<(N <= 4), std::uint32_t, std::uint64_t>>>; };
template <class List> constexpr std::size_t maskLen()
{
    if constexpr (det::has<kind::FixedLength, List>) return det::find<kind::FixedLength, List>::Len;
    else if constexpr (det::has<kind::FixedBitLength, List>) return (det::find<kind::FixedBitLength, List>::Len + 7) / 8;
    else return 4;
}
template <class FB, class... O> using MaskType = typename UIntOf<maskLen<typename det::FlatAll<O..., FB>::type>()>::type;
}

template <class FB, class... O>
class BitmaskValue : public NumBase<FB, det2::MaskType<FB, O...>, O...>
{
    using B = NumBase<FB, det2::MaskType<FB, O...>, O...>;
public:
    static constexpr auto category = Cat::Bitmask;
    using CommsTag = tag::Bitmask;
    using B::B;
    BitmaskValue() = default;
    bool valid() const
    {
        if constexpr (B::template hasOpt<kind::Reserved>()) {
            using R = typename B::template Opt<kind::Reserved>;
            if ((static_cast<std::uintmax_t>(B::getValue()) & R::Mask) != (R::Value & R::Mask)) return false;
        }
        return true;
    }
    template <class TIter> ErrorStatus read(TIter& iter, std::size_t len) { return B::checked(*this, B::read(iter, len)); }
    bool getBitValue(unsigned i) const { return (static_cast<std::uintmax_t>(B::getValue()) >> i) & 1; }
    void setBitValue(unsigned i, bool v)
    {
        auto x = static_cast<std::uintmax_t>(B::getValue());
        x = v ? (x | (std::uintmax_t(1) << i)) : (x & ~(std::uintmax_t(1) << i));
        B::setValue(static_cast<typename B::ValueType>(x));
    }
    bool hasAllBitsSet(typename B::ValueType m) const { return (B::getValue() & m) == m; }
};

// ---------------------------------------------------------------------------------------------------------- sequences
template <class E> inline constexpr bool isRaw = std::is_integral_v<E>;

template <class FB, class E, class Val, class... O>
class SeqBase : public Common<FB, O...>
{
    using C = Common<FB, O...>;
    template <class K> using Opt = typename C::template Opt<K>;
public:
    using ValueType = Val;
    using ElementType = E;
    template <class K> static constexpr bool hasOpt() { return C::template hasOpt<K>(); }
    static constexpr bool IsString = std::is_same_v<Val, std::string>;

    SeqBase() = default;
    explicit SeqBase(const ValueType& v) : m_value(v) {}
    const ValueType& value() const { return m_value; }
    ValueType& value() { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <class U> void setValue(U&& v) { m_value = std::forward<U>(v); }
    void clear() { m_value.clear(); }

    static constexpr std::size_t fixedSize() { if constexpr (hasOpt<kind::FixedSize>()) return Opt<kind::FixedSize>::Size; else return 0; }
    static constexpr bool isFixed() { return hasOpt<kind::FixedSize>(); }

    // ---- lengths
    static constexpr std::size_t elemMinLength() { if constexpr (isRaw<E>) return sizeof(E); else return E::minLength(); }
    static constexpr std::size_t elemMaxLength() { if constexpr (isRaw<E>) return sizeof(E); else return E::maxLength(); }
    static constexpr std::size_t elemPrefixMin() { if constexpr (hasOpt<kind::ElemLengthPrefix>()) return Opt<kind::ElemLengthPrefix>::Type::minLength(); else return 0; }
    static constexpr std::size_t elemPrefixMax() { if constexpr (hasOpt<kind::ElemLengthPrefix>()) return Opt<kind::ElemLengthPrefix>::Type::maxLength(); else return 0; }
    static constexpr std::size_t minLength()
    {
        if constexpr (C::hasEmptySerialization()) return 0;
        std::size_t r = 0;
        if constexpr (hasOpt<kind::SizePrefix>()) r += Opt<kind::SizePrefix>::Type::minLength();
        if constexpr (hasOpt<kind::SerLengthPrefix>()) r += Opt<kind::SerLengthPrefix>::Type::minLength();
        if constexpr (hasOpt<kind::TermSuffix>()) r += Opt<kind::TermSuffix>::Type::minLength();
        if constexpr (isFixed()) r += fixedSize() * (elemMinLength() + elemPrefixMin());
        if constexpr (hasOpt<kind::FixedElemLengthPrefix>() && isFixed()) r += Opt<kind::FixedElemLengthPrefix>::Type::minLength();
        return r;
    }
    static constexpr std::size_t maxLength()
    {
        if constexpr (C::hasEmptySerialization()) return 0;
        constexpr auto Unlimited = std::numeric_limits<std::size_t>::max();
        if constexpr (isFixed()) {
            if (elemMaxLength() == Unlimited) return Unlimited;
            std::size_t r = fixedSize() * (elemMaxLength() + elemPrefixMax());
            if constexpr (hasOpt<kind::FixedElemLengthPrefix>()) r += Opt<kind::FixedElemLengthPrefix>::Type::maxLength();
            return r;
        }
        return Unlimited;
    }
    static std::size_t elemLength(const E& e) { if constexpr (isRaw<E>) { static_cast<void>(e); return sizeof(E); } else return e.length(); }

    std::vector<std::uint8_t> payload() const
    {
        std::vector<std::uint8_t> r;
        auto it = std::back_inserter(r);
        std::size_t n = m_value.size();
        if (isFixed() && n > fixedSize()) n = fixedSize();
        bool first = true;
        auto one = [&](const E& e) {
            if constexpr (isRaw<E>) det::putUInt(it, static_cast<std::uint64_t>(e), sizeof(E), FB::BigEnd);
            else {
                if constexpr (hasOpt<kind::ElemLengthPrefix>()) {
                    typename Opt<kind::ElemLengthPrefix>::Type p;
                    p.setValue(e.length());
                    p.write(it, p.length());
                }
                if constexpr (hasOpt<kind::FixedElemLengthPrefix>()) {
                    if (first) {
                        typename Opt<kind::FixedElemLengthPrefix>::Type p;
                        p.setValue(e.length());
                        p.write(it, p.length());
                    }
                }
                e.write(it, e.length());
            }
            first = false;
        };
        for (std::size_t i = 0; i < n; ++i) one(static_cast<E>(m_value[i]));
        if constexpr (isFixed()) { for (; n < fixedSize(); ++n) one(E()); }
        return r;
    }
    std::size_t length() const
    {
        if constexpr (C::hasEmptySerialization()) return 0;
        auto r = payload().size();
        if constexpr (hasOpt<kind::SizePrefix>()) { typename Opt<kind::SizePrefix>::Type p; p.setValue(m_value.size()); r += p.length(); }
        if constexpr (hasOpt<kind::SerLengthPrefix>()) { typename Opt<kind::SerLengthPrefix>::Type p; p.setValue(payload().size()); r += p.length(); }
        if constexpr (hasOpt<kind::TermSuffix>()) { typename Opt<kind::TermSuffix>::Type p; r += p.length(); }
        return r;
    }
    bool canWrite() const { return true; }
    bool valid() const
    {
        if constexpr (hasOpt<kind::InvalidByDefault>()) return false;
        if constexpr (!isRaw<E>) { for (auto& e : m_value) { if (!e.valid()) return false; } }
        return true;
    }
    bool refresh()
    {
        bool r = false;
        if constexpr (!isRaw<E>) { for (auto& e : m_value) { if (e.refresh()) r = true; } }
        return r;
    }
    template <class TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if constexpr (C::hasEmptySerialization()) { static_cast<void>(iter); static_cast<void>(len); return ErrorStatus::Success; }
        else {
            if (len < length()) return ErrorStatus::BufferOverflow;
            auto data = payload();
            if constexpr (hasOpt<kind::SizePrefix>()) {
                typename Opt<kind::SizePrefix>::Type p;
                p.setValue(m_value.size());
                auto es = p.write(iter, p.length());
                if (es != ErrorStatus::Success) return es;
            }
            if constexpr (hasOpt<kind::SerLengthPrefix>()) {
                typename Opt<kind::SerLengthPrefix>::Type p;
                p.setValue(data.size());
                auto es = p.write(iter, p.length());
                if (es != ErrorStatus::Success) return es;
            }
            for (auto b : data) det::putByte(iter, b);
            if constexpr (hasOpt<kind::TermSuffix>()) {
                typename Opt<kind::TermSuffix>::Type p;
                auto es = p.write(iter, p.length());
                if (es != ErrorStatus::Success) return es;
            }
            return ErrorStatus::Success;
        }
    }
    template <class TIter> void writeNoStatus(TIter& iter) const { write(iter, std::numeric_limits<std::size_t>::max()); }

    template <class TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if constexpr (C::hasEmptySerialization()) { static_cast<void>(iter); static_cast<void>(len); return ErrorStatus::Success; }
        else return C::checked(*this, readAll(iter, len));
    }

    void forceReadLength(std::size_t v) { m_forceLen = v; m_hasForceLen = true; }
    void clearReadLengthForcing() { m_hasForceLen = false; }
    void forceReadElemCount(std::size_t v) { m_forceCount = v; m_hasForceCount = true; }
    void clearReadElemCount() { m_hasForceCount = false; }
    void clearReadElemCountForcing() { m_hasForceCount = false; }
    void forceReadElemLength(std::size_t v) { m_forceElem = v; m_hasForceElem = true; }
    void clearReadElemLengthForcing() { m_hasForceElem = false; }

    static constexpr bool isVersionDependent()
    {
        if constexpr (hasOpt<kind::VersionStorage>()) return true;
        else if constexpr (hasOpt<kind::HasVersionDependentMembers>()) return Opt<kind::HasVersionDependentMembers>::Value;
        else if constexpr (!isRaw<E>) return E::isVersionDependent();
        else return false;
    }
    bool setVersion(unsigned v)
    {
        bool r = C::storeVersion(v);
        if constexpr (!isRaw<E>) { for (auto& e : m_value) { if (setVersionOf(e, v)) r = true; } }
        return r;
    }
    bool operator==(const SeqBase& o) const { return m_value == o.m_value; }
    bool operator!=(const SeqBase& o) const { return !(*this == o); }
    bool operator<(const SeqBase& o) const { return std::lexicographical_compare(m_value.begin(), m_value.end(), o.m_value.begin(), o.m_value.end()); }

private:
    template <class TIter> ErrorStatus readElem(TIter& iter, std::size_t& rem, std::size_t& fixedLen, bool first)
    {
        auto from = iter;
        if constexpr (isRaw<E>) {
            if (rem < sizeof(E)) return ErrorStatus::NotEnoughData;
            m_value.push_back(static_cast<typename Val::value_type>(det::getUInt(iter, sizeof(E), FB::BigEnd)));
            rem -= sizeof(E);
            return ErrorStatus::Success;
        } else {
            bool limited = false;
            std::size_t limit = rem;
            if constexpr (hasOpt<kind::ElemLengthPrefix>()) {
                typename Opt<kind::ElemLengthPrefix>::Type p;
                auto es = p.read(iter, rem);
                if (es != ErrorStatus::Success) return es;
                rem -= static_cast<std::size_t>(std::distance(from, iter));
                limit = static_cast<std::size_t>(p.getValue());
                limited = true;
            }
            if constexpr (hasOpt<kind::FixedElemLengthPrefix>()) {
                if (first) {
                    typename Opt<kind::FixedElemLengthPrefix>::Type p;
                    auto es = p.read(iter, rem);
                    if (es != ErrorStatus::Success) return es;
                    rem -= static_cast<std::size_t>(std::distance(from, iter));
                    fixedLen = static_cast<std::size_t>(p.getValue());
                }
                limit = fixedLen;
                limited = true;
            }
            if (m_hasForceElem) { limit = m_forceElem; limited = true; }
            if (limited && rem < limit) return ErrorStatus::NotEnoughData;
            m_value.emplace_back();
            auto& e = m_value.back();
            if (isVersionDependent()) setVersionOf(e, C::getVersion());
            auto start = iter;
            auto es = e.read(iter, limit);
            if (es != ErrorStatus::Success) { m_value.pop_back(); return (limited && es == ErrorStatus::NotEnoughData) ? ErrorStatus::ProtocolError : es; }
            if (limited) { iter = start; std::advance(iter, static_cast<std::ptrdiff_t>(limit)); }
            rem -= static_cast<std::size_t>(std::distance(start, iter));
            static_cast<void>(first); static_cast<void>(fixedLen);
            return ErrorStatus::Success;
        }
    }
    template <class TIter> ErrorStatus readN(TIter& iter, std::size_t len, std::size_t n)
    {
        std::size_t fixedLen = 0;
        for (std::size_t i = 0; i < n; ++i) {
            auto es = readElem(iter, len, fixedLen, i == 0);
            if (es != ErrorStatus::Success) return es;
        }
        return ErrorStatus::Success;
    }
    template <class TIter> ErrorStatus readUntilEnd(TIter& iter, std::size_t len)
    {
        std::size_t fixedLen = 0;
        for (bool first = true; len > 0; first = false) {
            auto es = readElem(iter, len, fixedLen, first);
            if (es != ErrorStatus::Success) return es;
        }
        return ErrorStatus::Success;
    }
    template <class TIter> ErrorStatus readAll(TIter& iter, std::size_t len)
    {
        m_value.clear();
        if constexpr (isFixed()) {
            auto es = readN(iter, len, fixedSize());
            if (es != ErrorStatus::Success) return es;
            if constexpr (IsString) m_value.resize(std::min(m_value.size(), std::strlen(m_value.c_str())));
            return es;
        }
        if constexpr (hasOpt<kind::SizePrefix>()) {
            typename Opt<kind::SizePrefix>::Type p;
            auto from = iter;
            auto es = p.read(iter, len);
            if (es != ErrorStatus::Success) return es;
            len -= static_cast<std::size_t>(std::distance(from, iter));
            return readN(iter, len, static_cast<std::size_t>(p.getValue()));
        }
        if constexpr (hasOpt<kind::SerLengthPrefix>()) {
            typename Opt<kind::SerLengthPrefix>::Type p;
            auto from = iter;
            auto es = p.read(iter, len);
            if (es != ErrorStatus::Success) return es;
            len -= static_cast<std::size_t>(std::distance(from, iter));
            auto n = static_cast<std::size_t>(p.getValue());
            if (len < n) return ErrorStatus::NotEnoughData;
            es = readUntilEnd(iter, n);
            return es == ErrorStatus::NotEnoughData ? ErrorStatus::ProtocolError : es;
        }
        if constexpr (hasOpt<kind::TermSuffix>()) {
            std::size_t fixedLen = 0;
            for (bool first = true; ; first = false) {
                typename Opt<kind::TermSuffix>::Type t;
                auto iter2 = iter;
                auto es = t.read(iter2, len);
                if (es == ErrorStatus::Success && t == typename Opt<kind::TermSuffix>::Type()) {
                    iter = iter2;
                    return ErrorStatus::Success;
                }
                es = readElem(iter, len, fixedLen, first);
                if (es != ErrorStatus::Success) return es;
            }
        }
        if (m_hasForceCount) return readN(iter, len, m_forceCount);
        if (m_hasForceLen) {
            if (len < m_forceLen) return ErrorStatus::NotEnoughData;
            auto es = readUntilEnd(iter, m_forceLen);
            return es == ErrorStatus::NotEnoughData ? ErrorStatus::ProtocolError : es;
        }
        return readUntilEnd(iter, len);
    }

    ValueType m_value;
    std::size_t m_forceLen = 0, m_forceCount = 0, m_forceElem = 0;
    bool m_hasForceLen = false, m_hasForceCount = false, m_hasForceElem = false;
};

template <class FB, class E, class... O>
class ArrayList : public SeqBase<FB, E, std::vector<E>, O...>
{
    using B = SeqBase<FB, E, std::vector<E>, O...>;
public:
    static constexpr auto category = isRaw<E> ? Cat::Raw : Cat::List;
    using CommsTag = std::conditional_t<isRaw<E>, tag::RawArrayList, tag::ArrayList>;
    using B::B;
    ArrayList() = default;
};

template <class FB, class... O>
class String : public SeqBase<FB, char, std::string, O...>
{
    using B = SeqBase<FB, char, std::string, O...>;
public:
    static constexpr auto category = Cat::String;
    using CommsTag = tag::String;
    using B::B;
    String() = default;
};

// ---------------------------------------------------------------------------------------------------------- composites
template <class Tup> struct Members
{
    static constexpr std::size_t Count = std::tuple_size_v<Tup>;
    template <class F, class T> static void each(T&& t, F&& f) { std::apply([&](auto&... m) { (f(m), ...); }, t); }
    template <std::size_t From, std::size_t Until, class T, class F> static void range(T&& t, F&& f)
    {
        if constexpr (From < Until) { f(std::get<From>(t)); range<From + 1, Until>(t, f); }
    }
    static constexpr std::size_t add(std::size_t a, std::size_t b)
    {
        return a > std::numeric_limits<std::size_t>::max() - b ? std::numeric_limits<std::size_t>::max() : a + b;
    }
    template <std::size_t I = 0> static constexpr std::size_t minLen() { if constexpr (I < Count) return add(std::tuple_element_t<I, Tup>::minLength(), minLen<I + 1>()); else return 0; }
    template <std::size_t I = 0> static constexpr std::size_t maxLen() { if constexpr (I < Count) return add(std::tuple_element_t<I, Tup>::maxLength(), maxLen<I + 1>()); else return 0; }
    template <std::size_t I = 0> static constexpr bool versionDep() { if constexpr (I < Count) return std::tuple_element_t<I, Tup>::isVersionDependent() || versionDep<I + 1>(); else return false; }
    template <std::size_t From, std::size_t Until, class TIter> static ErrorStatus read(Tup& t, TIter& iter, std::size_t& len)
    {
        ErrorStatus es = ErrorStatus::Success;
        range<From, Until>(t, [&](auto& m) {
            if (es != ErrorStatus::Success) return;
            auto from = iter;
            es = m.read(iter, len);
            if (es == ErrorStatus::Success) len -= static_cast<std::size_t>(std::distance(from, iter));
        });
        return es;
    }
    template <std::size_t From, std::size_t Until, class TIter> static ErrorStatus write(const Tup& t, TIter& iter, std::size_t& len)
    {
        ErrorStatus es = ErrorStatus::Success;
        range<From, Until>(t, [&](auto& m) {
            if (es != ErrorStatus::Success) return;
            auto l = m.length();
            es = m.write(iter, len);
            if (es == ErrorStatus::Success) len -= l;
        });
        return es;
    }
};

template <class FB, class Tup, class... O>
class Bundle : public Common<FB, O...>
{
    using C = Common<FB, O...>;
    using M = Members<Tup>;
    template <class K> using Opt = typename C::template Opt<K>;
    static constexpr std::size_t remIdx() { if constexpr (hasOpt<kind::RemLengthMember>()) return Opt<kind::RemLengthMember>::Idx; else return M::Count; }
public:
    template <class K> static constexpr bool hasOpt() { return C::template hasOpt<K>(); }
    static constexpr auto category = Cat::Bundle;
    using CommsTag = tag::Bundle;
    using ValueType = Tup;
    Bundle() { refreshLen(); }
    const ValueType& value() const { return m_value; }
    ValueType& value() { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <class U> void setValue(U&& v) { m_value = std::forward<U>(v); }
    static constexpr std::size_t minLength() { return M::minLen(); }
    static constexpr std::size_t maxLength() { return remIdx() < M::Count ? std::numeric_limits<std::size_t>::max() : M::maxLen(); }
    std::size_t length() const { std::size_t r = 0; M::each(m_value, [&](auto& m) { r += m.length(); }); return r; }
    template <std::size_t From> std::size_t lengthFrom() const { std::size_t r = 0; M::template range<From, M::Count>(m_value, [&](auto& m) { r += m.length(); }); return r; }
    template <std::size_t Until> std::size_t lengthUntil() const { std::size_t r = 0; M::template range<0, Until>(m_value, [&](auto& m) { r += m.length(); }); return r; }
    bool canWrite() const { return true; }
    bool valid() const { bool r = true; M::each(m_value, [&](auto& m) { r = m.valid() && r; }); return r; }
    bool refresh()
    {
        bool r = false;
        M::each(m_value, [&](auto& m) { r = m.refresh() || r; });
        return refreshLen() || r;
    }
    template <class TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (len < length()) return ErrorStatus::BufferOverflow;
        return M::template write<0, M::Count>(m_value, iter, len);
    }
    template <class TIter> ErrorStatus read(TIter& iter, std::size_t len) { return C::checked(*this, part<0, M::Count>(iter, len)); }
    template <std::size_t From, class TIter> ErrorStatus readFrom(TIter& iter, std::size_t len) { return C::checked(*this, part<From, M::Count>(iter, len)); }
    template <std::size_t From, class TIter> ErrorStatus readFromAndUpdateLen(TIter& iter, std::size_t& len) { return part<From, M::Count>(iter, len); }
    template <std::size_t Until, class TIter> ErrorStatus readUntil(TIter& iter, std::size_t len) { return part<0, Until>(iter, len); }
    template <std::size_t Until, class TIter> ErrorStatus readUntilAndUpdateLen(TIter& iter, std::size_t& len) { return part<0, Until>(iter, len); }
    template <std::size_t From, std::size_t Until, class TIter> ErrorStatus readFromUntil(TIter& iter, std::size_t len) { return part<From, Until>(iter, len); }
    template <std::size_t From, std::size_t Until, class TIter> ErrorStatus readFromUntilAndUpdateLen(TIter& iter, std::size_t& len) { return part<From, Until>(iter, len); }

    static constexpr bool isVersionDependent()
    {
        if constexpr (hasOpt<kind::VersionStorage>()) return true;
        else if constexpr (hasOpt<kind::HasVersionDependentMembers>()) return Opt<kind::HasVersionDependentMembers>::Value;
        else return M::versionDep();
    }
    bool setVersion(unsigned v)
    {
        bool r = C::storeVersion(v);
        M::each(m_value, [&](auto& m) { r = setVersionOf(m, v) || r; });
        return refreshLen() || r;
    }
    bool operator==(const Bundle& o) const { return m_value == o.m_value; }
    bool operator!=(const Bundle& o) const { return !(*this == o); }
    bool operator<(const Bundle& o) const { return m_value < o.m_value; }
private:
    bool refreshLen()
    {
        if constexpr (remIdx() < M::Count) {
            auto& f = std::get<remIdx()>(m_value);
            auto want = lengthFrom<remIdx() + 1>();
            if (remValue(f) != want) { remSet(f, want); return true; }
        }
        return false;
    }
    template <class F> static std::size_t remValue(const F& f)
    {
        return static_cast<std::size_t>(f.getValue());
    }
    template <class F> static void remSet(F& f, std::size_t v) { f.setValue(v); }
    template <std::size_t From, std::size_t Until, class TIter> ErrorStatus part(TIter& iter, std::size_t& len)
    {
        if constexpr (remIdx() < M::Count) {
            if constexpr (From <= remIdx() && remIdx() < Until) {
                auto es = M::template read<From, remIdx() + 1>(m_value, iter, len);
                if (es != ErrorStatus::Success) return es;
                auto want = remValue(std::get<remIdx()>(m_value));
                if (len < want) return ErrorStatus::NotEnoughData;
                len = want;
                return finish<remIdx() + 1, Until>(iter, len);
            }
            else return finish<From, Until>(iter, len);
        }
        else return M::template read<From, Until>(m_value, iter, len);
    }
    // whatever remains of the declared length after the last member is skipped
    template <std::size_t From, std::size_t Until, class TIter> ErrorStatus finish(TIter& iter, std::size_t& len)
    {
        auto es = M::template read<From, Until>(m_value, iter, len);
        if (es == ErrorStatus::NotEnoughData && From > remIdx()) return ErrorStatus::ProtocolError;
        if (es == ErrorStatus::Success && Until == M::Count && From > remIdx()) { std::advance(iter, static_cast<std::ptrdiff_t>(len)); len = 0; }
        return es;
    }
    ValueType m_value;
};

template <class FB, class Tup, class... O>
class Bitfield : public Common<FB, O...>
{
    using C = Common<FB, O...>;
    using M = Members<Tup>;
    template <std::size_t I = 0> static constexpr std::size_t bitsUntil(std::size_t n = M::Count)
    {
        if constexpr (I < M::Count) return I < n ? std::tuple_element_t<I, Tup>::minBitLength() + bitsUntil<I + 1>(n) : 0; else return 0;
    }
public:
    template <class K> static constexpr bool hasOpt() { return C::template hasOpt<K>(); }
    static constexpr auto category = Cat::Bitfield;
    using CommsTag = tag::Bitfield;
    using ValueType = Tup;
    static constexpr std::size_t Bits = bitsUntil<0>();
    static_assert(Bits % 8 == 0 && Bits <= 64, "The members of the bitfield must occupy whole bytes");
    Bitfield() = default;
    const ValueType& value() const { return m_value; }
    ValueType& value() { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <class U> void setValue(U&& v) { m_value = std::forward<U>(v); }
    static constexpr std::size_t minLength() { return Bits / 8; }
    static constexpr std::size_t maxLength() { return Bits / 8; }
    static constexpr std::size_t length() { return Bits / 8; }
    template <std::size_t I> static constexpr std::size_t memberBitLength() { return std::tuple_element_t<I, Tup>::minBitLength(); }
    bool canWrite() const { return true; }
    bool valid() const { bool r = true; M::each(m_value, [&](auto& m) { r = m.valid() && r; }); return r; }
    bool refresh() { bool r = false; M::each(m_value, [&](auto& m) { r = m.refresh() || r; }); return r; }
    template <class TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (len < length()) return ErrorStatus::BufferOverflow;
        std::uint64_t all = 0;
        ErrorStatus es = ErrorStatus::Success;
        std::size_t pos = 0;
        M::each(m_value, [&](auto& m) {
            using F = std::decay_t<decltype(m)>;
            std::vector<std::uint8_t> buf;
            auto it = std::back_inserter(buf);
            if (es == ErrorStatus::Success) es = m.write(it, m.length());
            if (es != ErrorStatus::Success) return;
            auto p = buf.begin();
            auto v = det::getUInt(p, buf.size(), F::BigEnd);
            constexpr auto bits = F::minBitLength();
            if constexpr (bits < 64) v &= (std::uint64_t(1) << bits) - 1;
            if (pos < 64) all |= v << pos;
            pos += bits;
        });
        if (es != ErrorStatus::Success) return es;
        det::putUInt(iter, all, length(), FB::BigEnd);
        return es;
    }
    template <class TIter> ErrorStatus read(TIter& iter, std::size_t len) { return C::checked(*this, readAll(iter, len)); }
    static constexpr bool isVersionDependent()
    {
        if constexpr (hasOpt<kind::VersionStorage>()) return true;
        else if constexpr (hasOpt<kind::HasVersionDependentMembers>()) return C::template Opt<kind::HasVersionDependentMembers>::Value;
        else return M::versionDep();
    }
    bool setVersion(unsigned v)
    {
        bool r = C::storeVersion(v);
        M::each(m_value, [&](auto& m) { r = setVersionOf(m, v) || r; });
        return r;
    }
    bool operator==(const Bitfield& o) const { return m_value == o.m_value; }
    bool operator!=(const Bitfield& o) const { return !(*this == o); }
    bool operator<(const Bitfield& o) const { return m_value < o.m_value; }
private:
    template <class TIter> ErrorStatus readAll(TIter& iter, std::size_t len)
    {
        if (len < length()) return ErrorStatus::NotEnoughData;
        auto all = det::getUInt(iter, length(), FB::BigEnd);
        ErrorStatus es = ErrorStatus::Success;
        std::size_t pos = 0;
        M::each(m_value, [&](auto& m) {
            using F = std::decay_t<decltype(m)>;
            if (es != ErrorStatus::Success) return;
            constexpr auto bits = F::minBitLength();
            auto v = pos < 64 ? all >> pos : 0;
            if constexpr (bits < 64) v &= (std::uint64_t(1) << bits) - 1;
            std::vector<std::uint8_t> buf;
            auto o = std::back_inserter(buf);
            det::putUInt(o, v, F::maxLength(), F::BigEnd);
            const std::uint8_t* p = buf.data();
            es = m.read(p, buf.size());
            pos += bits;
        });
        return es;
    }
    ValueType m_value;
};

template <class F, class... O>
class Optional : public Common<comms::Field<option::def::BigEndian>, O...>
{
    using C = Common<comms::Field<option::def::BigEndian>, O...>;
    template <class K> using Opt = typename C::template Opt<K>;
public:
    template <class K> static constexpr bool hasOpt() { return C::template hasOpt<K>(); }
    bool selfValid() const
    {
        if constexpr (hasOpt<kind::FieldType>()) return static_cast<const typename Opt<kind::FieldType>::Type&>(*this).valid(); else return valid();
    }
    static constexpr auto category = Cat::Optional;
    using CommsTag = tag::Optional;
    using Field = F;
    using ValueType = F;
    using Mode = OptionalMode;
    Optional()
    {
        if constexpr (hasOpt<kind::OptionalDefault>()) m_mode = Opt<kind::OptionalDefault>::Mode;
        else if constexpr (hasOpt<kind::ExistsBetween>()) m_mode = Mode::Exists;
    }
    Field& field() { return m_field; }
    const Field& field() const { return m_field; }
    Field& value() { return m_field; }
    const Field& value() const { return m_field; }
    const Field& getValue() const { return m_field; }
    Mode getMode() const { return m_mode; }
    void setMode(Mode m) { m_mode = m; }
    bool doesExist() const { return m_mode == Mode::Exists; }
    bool isMissing() const { return m_mode == Mode::Missing; }
    bool isTentative() const { return m_mode == Mode::Tentative; }
    void setExists() { m_mode = Mode::Exists; }
    void setMissing() { m_mode = Mode::Missing; }
    void setTentative() { setMode(OptionalMode::Tentative); }
    static constexpr std::size_t minLength() { return 0; }
    static constexpr std::size_t maxLength() { return F::maxLength(); }
    std::size_t length() const { return m_mode == Mode::Exists ? m_field.length() : 0; }
    bool canWrite() const { return true; }
    bool valid() const { return m_mode == Mode::Missing || m_field.valid(); }
    bool refresh()
    {
        if (m_mode == Mode::Missing) return false;
        bool r = m_field.refresh();
        if constexpr (hasOpt<kind::MissingOnInvalid>()) {
            if (!selfValid()) { m_mode = Mode::Missing; r = true; }
        }
        return r;
    }
    template <class TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (m_mode == Mode::Missing || m_mode == Mode::Tentative) return ErrorStatus::Success;
        return m_field.write(iter, len);
    }
    template <class TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if (m_mode == Mode::Missing) return ErrorStatus::Success;
        if (m_mode == Mode::Tentative && len == 0) { m_mode = Mode::Missing; return ErrorStatus::Success; }
        auto from = iter;
        auto es = m_field.read(iter, len);
        if (es != ErrorStatus::Success) {
            if constexpr (hasOpt<kind::MissingOnReadFail>()) { iter = from; m_mode = Mode::Missing; return ErrorStatus::Success; }
            return es;
        }
        if constexpr (hasOpt<kind::MissingOnInvalid>()) {
            m_mode = Mode::Exists;
            if (!selfValid()) { iter = from; m_mode = Mode::Missing; return ErrorStatus::Success; }
        }
        m_mode = Mode::Exists;
        return C::checked(*this, es);
    }
    static constexpr bool isVersionDependent() { return hasOpt<kind::ExistsBetween>() || hasOpt<kind::VersionStorage>() || F::isVersionDependent(); }
    bool setVersion(unsigned v)
    {
        bool r = C::storeVersion(v);
        if (setVersionOf(m_field, v)) r = true;
        if constexpr (hasOpt<kind::ExistsBetween>()) {
            using X = Opt<kind::ExistsBetween>;
            auto mode = (X::From <= v && v <= X::Until) ? Mode::Exists : Mode::Missing;
            if (mode != m_mode) { m_mode = mode; r = true; }
        }
        return r;
    }
    bool operator==(const Optional& o) const { return m_mode == o.m_mode && (m_mode == Mode::Missing || m_field == o.m_field); }
    bool operator!=(const Optional& o) const { return !(*this == o); }
    bool operator<(const Optional& o) const { return m_mode != o.m_mode ? m_mode < o.m_mode : m_field < o.m_field; }
private:
    F m_field;
    Mode m_mode = Mode::Tentative;
};

template <class FB, class Tup, class... O>
class Variant : public Common<FB, O...>
{
    using C = Common<FB, O...>;
    static constexpr std::size_t Count = std::tuple_size_v<Tup>;
    template <std::size_t I> using Mem = std::tuple_element_t<I, Tup>;
public:
    template <class K> static constexpr bool hasOpt() { return C::template hasOpt<K>(); }
    static constexpr auto category = Cat::Variant;
    using CommsTag = tag::Variant;
    using Members = Tup;
    using ValueType = Tup;
    Variant() = default;
    Variant(const Variant& o) : C(o) { copy(o); }
    Variant& operator=(const Variant& o) { if (this != &o) { static_cast<C&>(*this) = o; copy(o); } return *this; }
    static constexpr std::size_t totalFields() { return Count; }
    std::size_t currentField() const { return m_idx; }
    bool currentFieldValid() const { return m_idx < Count; }
    template <std::size_t I> Mem<I>& initField()
    {
        assert(!currentFieldValid());
        auto p = std::make_shared<Mem<I>>();
        if constexpr (isVersionDependent()) setVersionOf(*p, C::getVersion());
        m_obj = p;
        m_idx = I;
        return *p;
    }
    template <std::size_t I> void deinitField() { assert(m_idx == I); m_obj.reset(); m_idx = Count; }
    template <std::size_t I> Mem<I>& accessField() { assert(m_idx == I); return *static_cast<Mem<I>*>(m_obj.get()); }
    template <std::size_t I> const Mem<I>& accessField() const { assert(m_idx == I); return *static_cast<const Mem<I>*>(m_obj.get()); }
    void reset() { m_obj.reset(); m_idx = Count; }
    void selectField(std::size_t i) { reset(); at<0>(i, [this](auto ic) { initField<decltype(ic)::value>(); }); }
    template <class F> void currentFieldExec(F&& f) { at<0>(m_idx, [&](auto ic) { constexpr auto I = decltype(ic)::value; f.template operator()<I>(accessField<I>()); }); }
    template <class F> void currentFieldExec(F&& f) const { at<0>(m_idx, [&](auto ic) { constexpr auto I = decltype(ic)::value; f.template operator()<I>(accessField<I>()); }); }
    static constexpr std::size_t minLength() { return 0; }
    static constexpr std::size_t maxLength() { return maxOf<0>(); }
    std::size_t length() const { std::size_t r = 0; cur([&](auto& m) { r = m.length(); }); return r; }
    bool canWrite() const { return true; }
    bool valid() const { bool r = false; cur([&](auto& m) { r = m.valid(); }); return r; }
    bool refresh() { bool r = false; at<0>(m_idx, [&](auto ic) { r = accessField<decltype(ic)::value>().refresh(); }); return r; }
    template <class TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        ErrorStatus es = ErrorStatus::Success;
        cur([&](auto& m) { es = m.write(iter, len); });
        return es;
    }
    template <class TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        reset();
        return C::checked(*this, tryRead<0>(iter, len));
    }
    static constexpr bool isVersionDependent()
    {
        if constexpr (hasOpt<kind::VersionStorage>()) return true;
        else if constexpr (hasOpt<kind::HasVersionDependentMembers>()) return C::template Opt<kind::HasVersionDependentMembers>::Value;
        else return field::Members<Tup>::versionDep();
    }
    bool setVersion(unsigned v)
    {
        bool r = C::storeVersion(v);
        at<0>(m_idx, [&](auto ic) { r = setVersionOf(accessField<decltype(ic)::value>(), v) || r; });
        return r;
    }
    bool operator==(const Variant& o) const
    {
        if (m_idx != o.m_idx) return false;
        bool r = true;
        at<0>(m_idx, [&](auto ic) { constexpr auto I = decltype(ic)::value; r = accessField<I>() == o.accessField<I>(); });
        return r;
    }
    bool operator!=(const Variant& o) const { return !(*this == o); }
    bool operator<(const Variant& o) const { return m_idx < o.m_idx; }
private:
    template <std::size_t I, class F> static void at(std::size_t idx, F&& f)
    {
        if constexpr (I < Count) { if (idx == I) f(std::integral_constant<std::size_t, I>()); else at<I + 1>(idx, f); }
    }
    template <class F> void cur(F&& f) const { at<0>(m_idx, [&](auto ic) { f(accessField<decltype(ic)::value>()); }); }
    void copy(const Variant& o)
    {
        m_idx = o.m_idx;
        m_obj.reset();
        at<0>(m_idx, [&](auto ic) { constexpr auto I = decltype(ic)::value; m_obj = std::make_shared<Mem<I>>(o.accessField<I>()); });
    }
    template <std::size_t I, class TIter> ErrorStatus tryRead(TIter& iter, std::size_t len, ErrorStatus err = ErrorStatus::InvalidMsgData)
    {
        if constexpr (I < Count) {
            auto it = iter;
            auto es = initField<I>().read(it, len);
            if (es == ErrorStatus::Success) { iter = it; return es; }
            deinitField<I>();
            return tryRead<I + 1>(iter, len, es == ErrorStatus::NotEnoughData ? es : err);
        }
        else return err;
    }
    template <std::size_t I> static constexpr std::size_t maxOf() { if constexpr (I < Count) return std::max(Mem<I>::maxLength(), maxOf<I + 1>()); else return 0; }
    std::shared_ptr<void> m_obj;
    std::size_t m_idx = Count;
};
} // namespace field

#include "mini_msg.inc"
#include "mini_frame.inc"

namespace field
{
namespace isdet
{
template <class... O> std::true_type isEnum(const EnumValue<O...>*); std::false_type isEnum(...);
template <class... O> std::true_type isBitmask(const BitmaskValue<O...>*); std::false_type isBitmask(...);
}
template <class F> constexpr bool isEnumValue() { return decltype(isdet::isEnum(static_cast<const F*>(nullptr)))::value; }
template <class F> constexpr bool isBitmaskValue() { return decltype(isdet::isBitmask(static_cast<const F*>(nullptr)))::value; }
}
namespace det
{
template <class... O> std::true_type isMsgBase(const MessageBase<O...>*); std::false_type isMsgBase(...);
}
template <class M> constexpr bool isMessageBase() { return decltype(det::isMsgBase(static_cast<const M*>(nullptr)))::value; }

namespace util
{
template <class T> using ArrayView = std::vector<T>;
using StringView = std::string;
template <std::size_t N> using StaticString = std::string;
template <class T, class F> void tupleForEach(T&& t, F&& f) { std::apply([&](auto&... x) { (f(x), ...); }, t); }
template <std::size_t N, bool S = false> struct SizeToType { using U = typename field::det2::UIntOf<N>::type; using Type = std::conditional_t<S, std::make_signed_t<U>, U>; };
template <class T, class I> void assign(T& c, I b, I e) { c.assign(b, e); }
} // namespace util
template <class T, class V> void cast_assign_impl(T& t, const V& v) { t = static_cast<T>(v); }
template <class T> struct CastAssignWrap { T& t; template <class V> T& operator=(const V& v) { t = static_cast<T>(v); return t; } };
template <class T> CastAssignWrap<T> cast_assign(T& t) { return CastAssignWrap<T>{t}; }
template <class F, class G> F field_cast(const G& g) { F f; f.value() = static_cast<typename F::ValueType>(g.value()); return f; }
template <class T> bool isPlainVersion(const T&) { return true; }
} // namespace comms

#include "mini_macros.inc"
