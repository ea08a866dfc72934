// The layers of the frames.
namespace frame
{
template <class M> struct requires_ptr : std::false_type {};
template <class M, class D> struct requires_ptr<std::unique_ptr<M, D>> : std::true_type {};
// Fields of the message object (the pointed one)
template <class M> auto& msgObj(M& m)
{
    if constexpr (requires_ptr<M>::value) return *m; else return m;
}
template <class M> void msgReset(M& m)
{
    if constexpr (requires_ptr<M>::value) m.reset(); else static_cast<void>(m);
}

using Bytes = std::vector<std::uint8_t>;

template <class M> ErrorStatus msgWrite(const M& m, Bytes& out)
{
    std::size_t n = 0;
    if constexpr (det::HasDoGetId<M>::value) n = m.doLength(); else n = m.length();
    Bytes buf(n + 1);
    if constexpr (det::HasDoGetId<M>::value) {
        auto* p = buf.data();
        auto es = m.doWrite(p, n);
        if (es != ErrorStatus::Success) return es;
        if (p != buf.data() + n) return ErrorStatus::NotSupported;
    } else if constexpr (std::is_convertible_v<std::uint8_t*, typename M::WriteIterator>) {
        auto* p = buf.data();
        auto es = m.write(p, n);
        if (es != ErrorStatus::Success) return es;
        if (p != buf.data() + n) return ErrorStatus::NotSupported;
    } else {
        buf.clear();
        auto p = std::back_inserter(buf);
        auto es = m.write(p, n);
        if (es != ErrorStatus::Success) return es;
        if (buf.size() != n) return ErrorStatus::NotSupported;
    }
    out.insert(out.end(), buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(n));
    return ErrorStatus::Success;
}
template <class M> std::size_t msgLength(const M& m) { if constexpr (det::HasDoGetId<M>::value) return m.doLength(); else return m.length(); }
template <class M> auto msgIdOf(const M& m) { if constexpr (det::HasDoGetId<M>::value) return m.doGetId(); else return m.getId(); }

template <class T> void fieldWrite(const T& f, ErrorStatus& es, Bytes& out)
{
    if (es != ErrorStatus::Success) return;
    auto it = std::back_inserter(out);
    es = f.write(it, f.length());
}

struct MsgIndexRef { std::size_t& ref; };
inline MsgIndexRef msgIndex(std::size_t& v) { return MsgIndexRef{v}; }

// Things common to all the layers; TSelf is the layer itself
template <class TSelf, class F, class Next, class... O>
class Layer
{
public:
    using Field = F;
    using NextLayer = Next;
    using LayerOpts = typename det::FlatAll<O...>::type;
    static constexpr std::size_t NumOfLayers = Next::NumOfLayers + 1;
    using AllFields = decltype(std::tuple_cat(std::declval<std::tuple<F>>(), std::declval<typename Next::AllFields>()));
    using MsgPtr = typename Next::MsgPtr;
    using AllMessages = typename Next::AllMessages;
    using Message = typename Next::Message;
    using MsgIdType = typename Next::MsgIdType;
    using MsgIdParamType = MsgIdType;
    static constexpr bool inPlace() { return det::has<kind::InPlace, LayerOpts> || Next::inPlace(); }
    Next& nextLayer() { return m_next; }
    const Next& nextLayer() const { return m_next; }

    template <class M, class TIter> ErrorStatus read(M& msg, TIter& iter, std::size_t len, std::size_t* missing = nullptr)
    {
        AllFields fields;
        return readFieldsCached(fields, msg, iter, len, missing);
    }
    template <class M, class TIter> ErrorStatus readFieldsCached(AllFields& fields, M& msg, TIter& iter, std::size_t len, std::size_t* missing = nullptr)
    {
        std::size_t dummy = 0;
        return self().template doRead<0>(fields, msg, iter, len, missing ? *missing : dummy);
    }
    template <class M, class TIter> ErrorStatus read(M& msg, TIter& iter, std::size_t len, MsgIndexRef idx) { idx.ref = 0; return read(msg, iter, len); }
    template <class M, class TIter> ErrorStatus readFieldsCached(AllFields& fields, M& msg, TIter& iter, std::size_t len, MsgIndexRef idx) { idx.ref = 0; return readFieldsCached(fields, msg, iter, len); }
    template <class M, class TIter> ErrorStatus write(const M& msg, TIter& iter, std::size_t len) const
    {
        AllFields fields;
        return writeFieldsCached(fields, msg, iter, len);
    }
    template <class M, class TIter> ErrorStatus writeFieldsCached(AllFields& fields, const M& msg, TIter& iter, std::size_t len) const
    {
        Bytes out;
        auto es = self().template doWrite<0>(fields, msg, out);
        if (es != ErrorStatus::Success) return es;
        if (len < out.size()) return ErrorStatus::BufferOverflow;
        for (auto b : out) det::putByte(iter, b);
        return es;
    }
    std::size_t length() const { return ownLength() + m_next.length(); }
    template <class M> std::size_t length(const M& msg) const
    {
        AllFields fields;
        Bytes out;
        self().template doWrite<0>(fields, msg, out);
        return out.size();
    }
    template <class TId> auto createMsg(TId id, unsigned idx = 0) { return m_next.createMsg(id, idx); }
protected:
    std::size_t ownLength() const { return Field().length(); }
    TSelf& self() { return static_cast<TSelf&>(*this); }
    const TSelf& self() const { return static_cast<const TSelf&>(*this); }
    Next m_next;
};

template <std::size_t I, class L> auto& layerAt(L& l)
{
    if constexpr (std::remove_const_t<L>::NumOfLayers == I + 1) return l; else return layerAt<I>(l.nextLayer());
}

template <class... O>
class MsgDataLayer
{
    using Opts = typename det::FlatAll<O...>::type;
public:
    using Field = typename det::find<kind::FieldType, Opts>::Type;
    static constexpr std::size_t NumOfLayers = 1;
    static constexpr bool inPlace() { return false; }
    using AllFields = std::tuple<Field>;
    using MsgPtr = void;
    using AllMessages = std::tuple<>;
    using Message = void;
    using MsgIdType = void;
    std::size_t length() const { return 0; }
    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto from = iter;
        auto& m = msgObj(msg);
        (setters(m), ...);
        ErrorStatus es = ErrorStatus::Success;
        if constexpr (det::HasDoGetId<std::decay_t<decltype(m)>>::value) es = m.doRead(iter, len); else es = m.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) missing = 1;
        if (es == ErrorStatus::Success) std::get<I>(all).value().assign(from, iter);
        return es;
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        auto n = out.size();
        auto es = msgWrite(msg, out);
        std::get<I>(all).value().assign(out.begin() + static_cast<std::ptrdiff_t>(n), out.end());
        return es;
    }
};

// The default factory: goes over all the messages
template <class TMessage, class TAll, class... O>
class MsgFactory
{
public:
    using MsgPtr = std::unique_ptr<TMessage>;
    using MsgIdType = typename TMessage::MsgIdType;
    MsgPtr createMsg(MsgIdType id, unsigned idx = 0, MsgFactoryCreateFailureReason* reason = nullptr) const
    {
        MsgPtr res;
        find(id, idx, res, std::make_index_sequence<std::tuple_size_v<TAll>>());
        if (reason) *reason = res ? MsgFactoryCreateFailureReason::None : MsgFactoryCreateFailureReason::InvalidId;
        return res;
    }
    MsgPtr createGenericMsg(MsgIdType, unsigned = 0) const { return MsgPtr(); }
private:
    template <std::size_t... I> static void find(MsgIdType id, unsigned idx, MsgPtr& res, std::index_sequence<I...>)
    {
        (one<std::tuple_element_t<I, TAll>>(id, idx, res), ...);
    }
    template <class X> static void one(MsgIdType id, unsigned& idx, MsgPtr& res)
    {
        if (res || X::doGetId() != id) return;
        if (idx == 0) res = std::make_unique<X>(); else --idx;
    }
};

template <class F, class TMessage, class TAll, class Next, class... O>
class MsgIdLayer : public Layer<MsgIdLayer<F, TMessage, TAll, Next, O...>, F, Next, O...>
{
    using B = Layer<MsgIdLayer<F, TMessage, TAll, Next, O...>, F, Next, O...>;
    using Opts = typename det::FlatAll<O...>::type;
    template <class X, bool H> struct Fac { using type = MsgFactory<TMessage, TAll>; };
    template <class X> struct Fac<X, true> { using type = typename det::find<kind::MsgFactoryTempl, Opts>::template Type<TMessage, TAll>; };
public:
    using Factory = typename Fac<void, det::has<kind::MsgFactoryTempl, Opts>>::type;
    using Message = TMessage;
    using AllMessages = TAll;
    using MsgPtr = std::unique_ptr<TMessage>;
    using MsgIdType = typename TMessage::MsgIdType;
    using MsgIdParamType = MsgIdType;
    MsgPtr createMsg(MsgIdType id, unsigned idx = 0) { return m_factory.createMsg(id, idx); }

    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto& f = std::get<I>(all);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) missing = 1;
        if (es != ErrorStatus::Success) return es;
        len -= static_cast<std::size_t>(std::distance(from, iter));
        auto id = static_cast<MsgIdType>(f.getValue());
        if constexpr (!requires_ptr<M>::value) {
            if (id != msgIdOf(msg)) return ErrorStatus::InvalidMsgId;
            return B::m_next.template doRead<I + 1>(all, msg, iter, len, missing, setters...);
        } else {
            for (unsigned idx = 0; ; ++idx) {
                auto p = m_factory.createMsg(id, idx);
                if (!p) return idx == 0 ? ErrorStatus::InvalidMsgId : es;
                M holder(std::move(p));
                auto it = iter;
                es = B::m_next.template doRead<I + 1>(all, holder, it, len, missing, setters...);
                if (es == ErrorStatus::Success) { iter = it; msg = std::move(holder); return es; }
            }
        }
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        auto& f = std::get<I>(all);
        f.setValue(static_cast<typename F::ValueType>(msgIdOf(msg)));
        auto es = ErrorStatus::Success;
        fieldWrite(f, es, out);
        if (es != ErrorStatus::Success) return es;
        return B::m_next.template doWrite<I + 1>(all, msg, out);
    }
private:
    Factory m_factory;
};

template <class F, class Next, class... O>
class MsgSizeLayer : public Layer<MsgSizeLayer<F, Next, O...>, F, Next, O...>
{
    using B = Layer<MsgSizeLayer<F, Next, O...>, F, Next, O...>;
public:
    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto& f = std::get<I>(all);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) missing = 1;
        if (es != ErrorStatus::Success) return es;
        len -= static_cast<std::size_t>(std::distance(from, iter));
        auto want = static_cast<std::size_t>(f.getValue());
        if (len < want) { missing = want - len; return ErrorStatus::NotEnoughData; }
        from = iter;
        es = B::m_next.template doRead<I + 1>(all, msg, iter, want, missing, setters...);
        if (es == ErrorStatus::NotEnoughData) { missing = 0; msgReset(msg); return ErrorStatus::ProtocolError; }
        if (es == ErrorStatus::Success) { iter = from; std::advance(iter, static_cast<std::ptrdiff_t>(want)); }
        return es;
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        Bytes rest;
        auto es = B::m_next.template doWrite<I + 1>(all, msg, rest);
        if (es != ErrorStatus::Success) return es;
        auto& f = std::get<I>(all);
        f.setValue(rest.size());
        fieldWrite(f, es, out);
        out.insert(out.end(), rest.begin(), rest.end());
        return es;
    }
};

template <class F, class Next, class... O>
class SyncPrefixLayer : public Layer<SyncPrefixLayer<F, Next, O...>, F, Next, O...>
{
    using B = Layer<SyncPrefixLayer<F, Next, O...>, F, Next, O...>;
public:
    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto& f = std::get<I>(all);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) missing = 1;
        if (es != ErrorStatus::Success) return es;
        if (f != F()) return ErrorStatus::ProtocolError;
        len -= static_cast<std::size_t>(std::distance(from, iter));
        return B::m_next.template doRead<I + 1>(all, msg, iter, len, missing, setters...);
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        auto es = ErrorStatus::Success;
        std::get<I>(all) = F();
        fieldWrite(std::get<I>(all), es, out);
        return es != ErrorStatus::Success ? es : B::m_next.template doWrite<I + 1>(all, msg, out);
    }
};

template <class F, class Next, class... O>
class SyncSuffixLayer : public Layer<SyncSuffixLayer<F, Next, O...>, F, Next, O...>
{
    using B = Layer<SyncSuffixLayer<F, Next, O...>, F, Next, O...>;
public:
    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto& f = std::get<I>(all);
        auto n = F().length();
        if (len < n) { missing = n - len; return ErrorStatus::NotEnoughData; }
        if constexpr (det::has<kind::SeekField, Opts_>) {
            std::size_t pos = 0;
            for (;; ++pos) {
                if (len - pos < n) { missing = 1; return ErrorStatus::NotEnoughData; }
                auto it = iter;
                std::advance(it, static_cast<std::ptrdiff_t>(pos));
                F t;
                if (t.read(it, n) == ErrorStatus::Success && t == F()) break;
            }
            len = pos + n;
        }
        auto from = iter;
        if constexpr (det::has<kind::VerifyBeforeRead, Opts_>) {
            auto end = iter;
            std::advance(end, static_cast<std::ptrdiff_t>(len - n));
            auto es = f.read(end, n);
            if (es == ErrorStatus::Success && f != F()) es = ErrorStatus::ProtocolError;
            if (es != ErrorStatus::Success) return es;
        }
        auto es = B::m_next.template doRead<I + 1>(all, msg, iter, len - n, missing, setters...);
        if (es != ErrorStatus::Success) return es;
        len -= static_cast<std::size_t>(std::distance(from, iter));
        es = f.read(iter, len);
        if (es == ErrorStatus::Success && f != F()) es = ErrorStatus::ProtocolError;
        if (es != ErrorStatus::Success) msgReset(msg);
        return es;
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        auto es = B::m_next.template doWrite<I + 1>(all, msg, out);
        std::get<I>(all) = F();
        fieldWrite(std::get<I>(all), es, out);
        return es;
    }
private:
    using Opts_ = typename det::FlatAll<O...>::type;
};

template <class F, class Calc, class Next, class... O>
class ChecksumLayer : public Layer<ChecksumLayer<F, Calc, Next, O...>, F, Next, O...>
{
    using B = Layer<ChecksumLayer<F, Calc, Next, O...>, F, Next, O...>;
public:
    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto& f = std::get<I>(all);
        auto n = F().length();
        if (len < n) { missing = n - len; return ErrorStatus::NotEnoughData; }
        auto from = iter;
        if constexpr (det::has<kind::VerifyBeforeRead, Opts_>) {
            auto end = iter;
            std::advance(end, static_cast<std::ptrdiff_t>(len - n));
            auto e2 = end;
            auto es = f.read(e2, n);
            if (es != ErrorStatus::Success) return es;
            auto c = iter;
            if (static_cast<typename F::ValueType>(Calc()(c, len - n)) != f.getValue()) return ErrorStatus::ProtocolError;
        }
        auto es = B::m_next.template doRead<I + 1>(all, msg, iter, len - n, missing, setters...);
        if (es != ErrorStatus::Success) return es;
        auto used = static_cast<std::size_t>(std::distance(from, iter));
        es = f.read(iter, len - used);
        if (es == ErrorStatus::Success && static_cast<typename F::ValueType>(Calc()(from, used)) != f.getValue()) es = ErrorStatus::ProtocolError;
        if (es != ErrorStatus::Success) msgReset(msg);
        return es;
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        Bytes data;
        auto es = B::m_next.template doWrite<I + 1>(all, msg, data);
        if (es != ErrorStatus::Success) return es;
        const std::uint8_t* p = data.data();
        std::get<I>(all).setValue(static_cast<typename F::ValueType>(Calc()(p, data.size())));
        out.insert(out.end(), data.begin(), data.end());
        fieldWrite(std::get<I>(all), es, out);
        return es;
    }
private:
    using Opts_ = typename det::FlatAll<O...>::type;
};

template <class F, class Calc, class Next, class... O>
class ChecksumPrefixLayer : public Layer<ChecksumPrefixLayer<F, Calc, Next, O...>, F, Next, O...>
{
    using B = Layer<ChecksumPrefixLayer<F, Calc, Next, O...>, F, Next, O...>;
public:
    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto& f = std::get<I>(all);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) missing = 1;
        if (es != ErrorStatus::Success) return es;
        len -= static_cast<std::size_t>(std::distance(from, iter));
        auto start = iter;
        if constexpr (det::has<kind::VerifyBeforeRead, Opts_>) {
            auto c = iter;
            if (static_cast<typename F::ValueType>(Calc()(c, len)) != f.getValue()) return ErrorStatus::ProtocolError;
        }
        es = B::m_next.template doRead<I + 1>(all, msg, iter, len, missing, setters...);
        if (es != ErrorStatus::Success) return es;
        auto used = static_cast<std::size_t>(std::distance(start, iter));
        if (static_cast<typename F::ValueType>(Calc()(start, used)) != f.getValue()) { msgReset(msg); return ErrorStatus::ProtocolError; }
        return es;
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        Bytes data;
        auto es = B::m_next.template doWrite<I + 1>(all, msg, data);
        if (es != ErrorStatus::Success) return es;
        const std::uint8_t* p = data.data();
        std::get<I>(all).setValue(static_cast<typename F::ValueType>(Calc()(p, data.size())));
        fieldWrite(std::get<I>(all), es, out);
        out.insert(out.end(), data.begin(), data.end());
        return es;
    }
private:
    using Opts_ = typename det::FlatAll<O...>::type;
};

template <class T, class F> void valueAssign(T& t, const F& f)
{
    if constexpr (T::category == Cat::Bitfield) {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (valueAssign(std::get<I>(t.value()), std::get<I>(f.value())), ...);
        }(std::make_index_sequence<std::tuple_size_v<std::decay_t<decltype(t.value())>>>());
    }
    else     if constexpr (std::is_convertible_v<decltype(f.getValue()), typename T::ValueType> || T::category == Cat::Enum) t.value() = static_cast<typename T::ValueType>(f.getValue());
    else if constexpr (T::category == Cat::Optional) { t.setMode(f.getMode()); valueAssign(t.field(), f.field()); }
    else {
        // same serialization
        auto es = ErrorStatus::Success;
        Bytes b;
        fieldWrite(f, es, b);
        const std::uint8_t* p = b.data();
        t.read(p, b.size());
    }
}

template <class F, std::size_t TIdx, class Next, class... O>
class TransportValueLayer : public Layer<TransportValueLayer<F, TIdx, Next, O...>, F, Next, O...>
{
    using B = Layer<TransportValueLayer<F, TIdx, Next, O...>, F, Next, O...>;
    static constexpr bool Pseudo = det::has<kind::PseudoValue, typename det::FlatAll<O...>::type>;
public:
    F& pseudoField() { return m_pseudo; }
    const F& pseudoField() const { return m_pseudo; }
    template <std::size_t I, class All, class M, class TIter, class... S>
    ErrorStatus doRead(All& all, M& msg, TIter& iter, std::size_t len, std::size_t& missing, S&... setters)
    {
        auto& f = std::get<I>(all);
        if constexpr (Pseudo) f = m_pseudo;
        else {
            auto from = iter;
            auto es = f.read(iter, len);
            if (es == ErrorStatus::NotEnoughData) missing = 1;
            if (es != ErrorStatus::Success) return es;
            len -= static_cast<std::size_t>(std::distance(from, iter));
        }
        auto set = [&f](auto& m) {
            auto& t = std::get<TIdx>(m.transportFields());
            valueAssign(t, f);
        };
        return B::m_next.template doRead<I + 1>(all, msg, iter, len, missing, setters..., set);
    }
    template <std::size_t I, class All, class M> ErrorStatus doWrite(All& all, const M& msg, Bytes& out) const
    {
        auto& f = std::get<I>(all);
        auto es = ErrorStatus::Success;
        valueAssign(f, std::get<TIdx>(msg.transportFields()));
        if constexpr (!Pseudo) fieldWrite(f, es, out);
        return es != ErrorStatus::Success ? es : B::m_next.template doWrite<I + 1>(all, msg, out);
    }
    std::size_t length() const { return (Pseudo ? 0 : F().length()) + B::m_next.length(); }
    template <class M> std::size_t length(const M& msg) const { return B::length(msg); }
private:
    F m_pseudo;
};

namespace checksum
{
template <class R = std::uint8_t, class... O> class BasicSum
{
public:
    template <class TIter> R operator()(TIter& iter, std::size_t len) const { R r = 0; for (; len; --len) r = static_cast<R>(r + det::getByte(iter)); return r; }
};
template <class R = std::uint8_t, class... O> class BasicXor
{
public:
    template <class TIter> R operator()(TIter& iter, std::size_t len) const { R r = 0; for (; len; --len) r = static_cast<R>(r ^ det::getByte(iter)); return r; }
};
template <class R, R Poly, R Init, R Fin, bool Reflect> class CrcT
{
public:
    template <class TIter> R operator()(TIter& iter, std::size_t len) const
    {
        constexpr unsigned W = sizeof(R) * 8;
        R r = Init;
        for (; len; --len) {
            auto b = det::getByte(iter);
            for (unsigned i = 0; i < 8; ++i) {
                bool bit = Reflect ? (b >> i) & 1 : (b >> (7 - i)) & 1;
                bool top = (r >> (W - 1)) & 1;
                r = static_cast<R>(r << 1);
                if (bit != top) r = static_cast<R>(r ^ Poly);
            }
        }
        if (Reflect) {
            R t = 0;
            for (unsigned i = 0; i < W; ++i) { if ((r >> i) & 1) t = static_cast<R>(t | (R(1) << (W - 1 - i))); }
            r = t;
        }
        return static_cast<R>(r ^ Fin);
    }
};
using Crc_CCITT = CrcT<std::uint16_t, 0x1021, 0xffff, 0, false>;
using Crc_16 = CrcT<std::uint16_t, 0x8005, 0, 0, true>;
using Crc_32 = CrcT<std::uint32_t, 0x04c11db7, 0xffffffff, 0xffffffff, true>;
} // namespace checksum
} // namespace frame

// ------------------------------------------------------------------------------------------------- processing of input
template <class TMsg, class T> typename TMsg::ReadIterator readIteratorFor(T* p) { return typename TMsg::ReadIterator(p); }
template <class TMsg, class T> typename TMsg::WriteIterator writeIteratorFor(T* p) { return typename TMsg::WriteIterator(p); }

template <class TIter, class TFrame, class TMsg> ErrorStatus processSingle(TIter& iter, std::size_t len, TFrame& frame, TMsg& msg) { return frame.read(msg, iter, len); }

template <class D, class TFrame, class THandler> std::size_t processAllWithDispatchViaDispatcher(const std::uint8_t* buf, std::size_t len, TFrame& frame, THandler& handler)
{
    std::size_t done = 0;
    while (done < len) {
        typename TFrame::MsgPtr msg;
        const std::uint8_t* it = buf + done;
        auto es = frame.read(msg, it, len - done);
        if (es == ErrorStatus::NotEnoughData) break;
        if (es == ErrorStatus::ProtocolError) { ++done; continue; }
        if (es == ErrorStatus::Success && msg) D::dispatch(msg->getId(), *msg, handler);
        done = static_cast<std::size_t>(it - buf);
    }
    return done;
}

namespace frame
{
template <class M, class H, std::size_t I = 0, class TAll> void dispatchDynamic(M& m, H& h, const TAll* all)
{
    if constexpr (I < std::tuple_size_v<TAll>) {
        if (auto* p = dynamic_cast<std::tuple_element_t<I, TAll>*>(&m)) h.handle(*p); else dispatchDynamic<M, H, I + 1>(m, h, all);
    }
    else h.handle(m);
}
struct MsgIdHolder {}; struct MsgSizeHolder {};
} // namespace frame
template <class TFrame> struct DynDispatcher
{
    template <class Id, class M, class H> static void dispatch(Id, M& m, H& h) { frame::dispatchDynamic(m, h, static_cast<typename TFrame::AllMessages*>(nullptr)); }
};
template <class TIter, class TFrame, class THandler> std::size_t processAllWithDispatch(TIter buf, std::size_t len, TFrame& frame, THandler& handler)
{
    using It = typename TFrame::MsgPtr::element_type::ReadIterator;
    std::size_t done = 0;
    while (done < len) {
        typename TFrame::MsgPtr msg;
        It it = buf + done;
        auto es = frame.read(msg, it, len - done);
        if (es == ErrorStatus::NotEnoughData) break;
        if (es == ErrorStatus::ProtocolError) { ++done; continue; }
        if (es == ErrorStatus::Success && msg) {
            if constexpr (det::has<kind::Handler, typename TFrame::MsgPtr::element_type::MsgOpts>) msg->dispatch(handler);
            else DynDispatcher<TFrame>::dispatch(msg->getId(), *msg, handler);
        }
        done = static_cast<std::size_t>(it - It(buf));
    }
    return done;
}
