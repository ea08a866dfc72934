// comms::Message and comms::MessageBase
namespace det
{
struct NoHandler { template <class M> void handle(M&) {} };
template <class H> class DispatchIface
{
public:
    using Handler = H;
    void dispatch(H& h) { dispatchImpl(h); }
protected:
    virtual ~DispatchIface() = default;
    virtual void dispatchImpl(H&) = 0;
};
template <> class DispatchIface<void> {};
}

template <class... O>
class Message : public det::DispatchIface<typename std::conditional_t<det::has<kind::Handler, typename det::FlatAll<O...>::type>, det::find<kind::Handler, typename det::FlatAll<O...>::type>, det::Id<void>>::Type>
{
public:
    using MsgOpts = typename det::FlatAll<O...>::type;
    template <class K> using MsgOpt = det::find<K, MsgOpts>;
private:
    template <class K, class D> struct TypeOr { using type = typename MsgOpt<K>::Type; };
    template <class X> static constexpr bool hasM() { return det::has<X, MsgOpts>; }
    template <class K, class D, bool H> struct Sel { using type = D; };
    template <class K, class D> struct Sel<K, D, true> { using type = typename det::find<K, MsgOpts>::Type; };
public:
    using MsgIdType = typename Sel<kind::MsgIdType, std::intmax_t, det::has<kind::MsgIdType, MsgOpts>>::type;
    using MsgIdParamType = MsgIdType;
    using ReadIterator = typename Sel<kind::ReadIterator, const std::uint8_t*, det::has<kind::ReadIterator, MsgOpts>>::type;
    using WriteIterator = typename Sel<kind::WriteIterator, std::uint8_t*, det::has<kind::WriteIterator, MsgOpts>>::type;
    using TransportFields = typename Sel<kind::ExtraTransportFields, std::tuple<>, det::has<kind::ExtraTransportFields, MsgOpts>>::type;
    using Field = comms::Field<typename det::find<kind::Endian, MsgOpts>>;
    using Endian = typename Field::Endian;
    using InterfaceOptions = MsgOpts;
    using VersionType = unsigned;
    static constexpr bool hasVersionInTransportFields() { return det::has<kind::VersionInTransport, MsgOpts>; }
    static constexpr bool hasTransportFields() { return std::tuple_size_v<TransportFields> != 0; }

    Message() = default;
    virtual ~Message() = default;
    MsgIdParamType getId() const { return getIdImpl(); }
    ErrorStatus read(ReadIterator& iter, std::size_t len) { return readImpl(iter, len); }
    ErrorStatus write(WriteIterator& iter, std::size_t len) const { return writeImpl(iter, len); }
    std::size_t length() const { return lengthImpl(); }
    bool valid() const { return validImpl(); }
    bool refresh() { return refreshImpl(); }
    const char* name() const { return nameImpl(); }
    TransportFields& transportFields() { return m_transport; }
    const TransportFields& transportFields() const { return m_transport; }
    auto& version()
    {
        return std::get<MsgOpt<kind::VersionInTransport>::Idx>(m_transport).value();
    }
    const auto& version() const { return std::get<MsgOpt<kind::VersionInTransport>::Idx>(m_transport).value(); }
    unsigned commsVersion() const
    {
        if constexpr (det::has<kind::VersionInTransport, MsgOpts>) return static_cast<unsigned>(std::get<MsgOpt<kind::VersionInTransport>::Idx>(m_transport).getValue());
        else return 0;
    }
protected:
    virtual MsgIdParamType getIdImpl() const { assert(!"getId"); return MsgIdType(); }
    virtual ErrorStatus readImpl(ReadIterator&, std::size_t) { return ErrorStatus::NotSupported; }
    virtual ErrorStatus writeImpl(WriteIterator&, std::size_t) const { return ErrorStatus::NotSupported; }
    virtual std::size_t lengthImpl() const { return 0; }
    virtual bool validImpl() const { return false; }
    virtual bool refreshImpl() { return false; }
    virtual const char* nameImpl() const { return ""; }
    template <class T> static const std::uint8_t& getData(T& iter);
private:
    TransportFields m_transport;
};

namespace det
{
template <class T, class = void> struct HasDoName : std::false_type {};
template <class T> struct HasDoName<T, std::void_t<decltype(T::doName())>> : std::true_type {};
template <class D, class Opts, bool H = det::has<kind::MsgType, Opts>> struct ActualOf { using type = D; };
template <class D, class Opts> struct ActualOf<D, Opts, true> { using type = typename det::find<kind::MsgType, Opts>::Type; };
template <class T, class = void> struct HasDoGetId : std::false_type {};
template <class T> struct HasDoGetId<T, std::void_t<decltype(std::declval<const T&>().doGetId())>> : std::true_type {};
}

template <class TBase, class TActual, bool Has> class DispatchImpl : public TBase {};
template <class TBase, class TActual> class DispatchImpl<TBase, TActual, true> : public TBase
{
protected:
    virtual void dispatchImpl(typename TBase::Handler& h) override { h.handle(static_cast<TActual&>(*this)); }
};
template <class TBase, class... O>
class MessageBase : public DispatchImpl<TBase, typename det::ActualOf<MessageBase<TBase, O...>, typename det::FlatAll<O...>::type>::type, det::has<kind::Handler, typename TBase::MsgOpts>>
{
public:
    using ImplOpts = typename det::FlatAll<O...>::type;
private:
    template <class K, bool H> struct Fs { using type = std::tuple<>; };
    template <class K> struct Fs<K, true> { using type = typename det::find<K, ImplOpts>::Type; };
    template <class K, bool H, class D> struct Ty { using type = D; };
    template <class K, class D> struct Ty<K, true, D> { using type = typename det::find<K, ImplOpts>::Type; };
    using Actual = typename Ty<kind::MsgType, det::has<kind::MsgType, ImplOpts>, MessageBase>::type;
public:
    using AllFields = typename Fs<kind::FieldsImpl, det::has<kind::FieldsImpl, ImplOpts>>::type;
    using Members = field::Members<AllFields>;
    using typename TBase::MsgIdType;
    using typename TBase::MsgIdParamType;
    using typename TBase::ReadIterator;
    using typename TBase::WriteIterator;

    MessageBase() { doFieldsVersionUpdate(); }

    AllFields& fields() { return m_fields; }
    const AllFields& fields() const { return m_fields; }
    template <std::size_t I> auto& field() { return std::get<I>(m_fields); }
    template <std::size_t I> const auto& field() const { return std::get<I>(m_fields); }

    static constexpr bool hasStaticMsgId() { return det::has<kind::StaticNumId, ImplOpts>; }
    static constexpr MsgIdParamType doGetId() { return static_cast<MsgIdType>(det::find<kind::StaticNumId, ImplOpts>::Id); }
    static constexpr bool areFieldsVersionDependent() { return Members::versionDep(); }
    static constexpr std::size_t doMinLength() { return Members::minLen(); }
    static constexpr std::size_t doMaxLength() { return Members::maxLen(); }
    template <std::size_t F> static constexpr std::size_t doMinLengthFrom() { return Members::template minLen<F>(); }
    template <class TIter> ErrorStatus doRead(TIter& iter, std::size_t len)
    {
        doFieldsVersionUpdate();
        auto es = Members::template read<0, Members::Count>(m_fields, iter, len);
        if constexpr (det::has<kind::FailOnInvalid, ImplOpts>) {
            if (es == ErrorStatus::Success && !self().doValid()) return det::find<kind::FailOnInvalid, ImplOpts>::Es;
        }
        return es;
    }
    template <std::size_t F, class TIter> ErrorStatus doReadFrom(TIter& iter, std::size_t len) { return Members::template read<F, Members::Count>(m_fields, iter, len); }
    template <std::size_t U, class TIter> ErrorStatus doReadUntil(TIter& iter, std::size_t len) { return Members::template read<0, U>(m_fields, iter, len); }
    template <std::size_t U, class TIter> ErrorStatus doReadUntilAndUpdateLen(TIter& iter, std::size_t& len) { return Members::template read<0, U>(m_fields, iter, len); }
    template <std::size_t F, std::size_t U, class TIter> ErrorStatus doReadFromUntil(TIter& iter, std::size_t len) { return Members::template read<F, U>(m_fields, iter, len); }
    template <std::size_t F, std::size_t U, class TIter> ErrorStatus doReadFromUntilAndUpdateLen(TIter& iter, std::size_t& len) { return Members::template read<F, U>(m_fields, iter, len); }
    template <class TIter> ErrorStatus doWrite(TIter& iter, std::size_t len) const { return Members::template write<0, Members::Count>(m_fields, iter, len); }
    std::size_t doLength() const { std::size_t r = 0; Members::each(m_fields, [&](auto& f) { r += f.length(); }); return r; }
    bool doValid() const { bool r = true; Members::each(m_fields, [&](auto& f) { r = f.valid() && r; }); return r; }
    bool doRefresh()
    {
        bool r = doFieldsVersionUpdate();
        Members::each(m_fields, [&](auto& f) { r = f.refresh() || r; });
        return r;
    }
    bool operator==(const MessageBase& o) const { return m_fields == o.m_fields && TBase::transportFields() == o.transportFields(); }
    bool operator!=(const MessageBase& o) const { return !(*this == o); }
    bool doFieldsVersionUpdate()
    {
        bool r = false;
        if constexpr (TBase::hasVersionInTransportFields()) {
            auto v = TBase::commsVersion();
            Members::each(m_fields, [&](auto& f) { r = field::setVersionOf(f, v) || r; });
        }
        return r;
    }
    bool doVersionUpdate(unsigned v)
    {
        bool r = false;
        Members::each(m_fields, [&](auto& f) { r = field::setVersionOf(f, v) || r; });
        return r;
    }
protected:
    virtual MsgIdParamType getIdImpl() const override { return self().doGetId(); }
    virtual ErrorStatus readImpl(ReadIterator& iter, std::size_t len) override { return self().doRead(iter, len); }
    virtual ErrorStatus writeImpl(WriteIterator& iter, std::size_t len) const override { return self().doWrite(iter, len); }
    virtual std::size_t lengthImpl() const override { return self().doLength(); }
    virtual bool validImpl() const override { return self().doValid(); }
    virtual bool refreshImpl() override { return self().doRefresh(); }
    virtual const char* nameImpl() const override { if constexpr (det::HasDoName<Actual>::value) return Actual::doName(); else return ""; }
private:
    Actual& self() { return static_cast<Actual&>(*this); }
    const Actual& self() const { return static_cast<const Actual&>(*this); }
    AllFields m_fields;
};
