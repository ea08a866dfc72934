// Stand-in of the cc_tools_qt library (and of what it takes from Qt), made to compile and run generated plugins.
#pragma once
#include "QtCore/QObject"
#include "QtCore/QtPlugin"

namespace cc_tools_qt
{
#define CC_TOOLS_QT_MAKE_VERSION(a_, b_, c_) (((a_) << 24) | ((b_) << 8) | (c_))
constexpr unsigned version() { return CC_TOOLS_QT_MAKE_VERSION(6, 0, 7); }

class ToolsField
{
public:
    std::string dump, bytes, name;
};
using ToolsFieldPtr = std::unique_ptr<ToolsField>;
class ToolsFrame;
class ToolsMessage
{
public:
    using Ptr = std::unique_ptr<ToolsMessage>;
    using DataSeq = std::vector<std::uint8_t>;
    using FieldsList = std::vector<ToolsFieldPtr>;

    virtual ~ToolsMessage() noexcept = default;
    const char* name() const { return nameImpl(); }
    bool refreshMsg() { return refreshMsgImpl(); }
    qlonglong numericId() const { return numericIdImpl(); }
    QString idAsString() const { return idAsStringImpl(); }
    void reset() { resetImpl(); }
    bool assign(const ToolsMessage& other) { return assignImpl(other); }
    bool isValid() const { return isValidImpl(); }
    DataSeq encodeData() const { return encodeDataImpl(); }
    bool decodeData(const DataSeq& data) { return decodeDataImpl(data); }
    Ptr clone() const { return cloneImpl(); }
    void assignProtMessage(void* m) { assignProtMessageImpl(m); }
    DataSeq encodeFramed(ToolsFrame& frame) const { return encodeFramedImpl(frame); }
    FieldsList transportFields() { return transportFieldsImpl(); }
    FieldsList payloadFields() { return payloadFieldsImpl(); }

protected:
    virtual const char* nameImpl() const = 0;
    virtual bool refreshMsgImpl() = 0;
    virtual qlonglong numericIdImpl() const = 0;
    virtual QString idAsStringImpl() const { return QString("%1").arg(numericIdImpl(), 0, 10, QChar('0')); }
    virtual void resetImpl() = 0;
    virtual bool assignImpl(const ToolsMessage& other) = 0;
    virtual bool isValidImpl() const = 0;
    virtual DataSeq encodeDataImpl() const = 0;
    virtual bool decodeDataImpl(const DataSeq& data) = 0;
    virtual Ptr cloneImpl() const = 0;
    virtual void assignProtMessageImpl(void* protMsg) = 0;
    virtual DataSeq encodeFramedImpl(ToolsFrame& frame) const = 0;
    virtual FieldsList transportFieldsImpl() = 0;
    virtual FieldsList payloadFieldsImpl() = 0;
};
using ToolsMessagePtr = ToolsMessage::Ptr;
using ToolsMessagesList = std::vector<ToolsMessagePtr>;
struct ToolsDataInfo { std::vector<std::uint8_t> m_data; };

class ToolsFrame
{
public:
    using DataSeq = std::vector<std::uint8_t>;
    virtual ~ToolsFrame() noexcept = default;
    ToolsMessagesList readData(const ToolsDataInfo& d, bool final) { return readDataImpl(d, final); }
    void updateMessage(ToolsMessage& m) { updateMessageImpl(m); }
    ToolsMessagePtr createInvalidMessage() { return createInvalidMessageImpl(); }
    ToolsMessagePtr createRawDataMessage() { return createRawDataMessageImpl(); }
    ToolsMessagePtr createExtraInfoMessage() { return createExtraInfoMessageImpl(); }
    ToolsMessagesList createAllMessages() { return createAllMessagesImpl(); }
    ToolsMessagePtr createMessage(const QString& id, unsigned idx) { return createMessageImpl(id, idx); }
    DataSeq writeProtMsg(const void* m) { return writeProtMsgImpl(m); }
protected:
    virtual ToolsMessagesList readDataImpl(const ToolsDataInfo& dataInfo, bool final) = 0;
    virtual void updateMessageImpl(ToolsMessage& msg) = 0;
    virtual ToolsMessagePtr createInvalidMessageImpl() = 0;
    virtual ToolsMessagePtr createRawDataMessageImpl() = 0;
    virtual ToolsMessagePtr createExtraInfoMessageImpl() = 0;
    virtual ToolsMessagesList createAllMessagesImpl() = 0;
    virtual ToolsMessagePtr createMessageImpl(const QString& idAsString, unsigned idx) = 0;
    virtual DataSeq writeProtMsgImpl(const void* protInterface) = 0;
};
using ToolsFramePtr = std::unique_ptr<ToolsFrame>;

class ToolsProtocol
{
public:
    explicit ToolsProtocol(ToolsFramePtr f) : m_frame(std::move(f)) {}
    virtual ~ToolsProtocol() noexcept = default;
    const QString& name() const { return nameImpl(); }
    ToolsFrame& frame() { return *m_frame; }
protected:
    virtual const QString& nameImpl() const = 0;
private:
    ToolsFramePtr m_frame;
};
using ToolsProtocolPtr = std::shared_ptr<ToolsProtocol>;

class ToolsPlugin : public QObject
{
public:
    enum Type { Type_Invalid, Type_Socket, Type_Filter, Type_Protocol };
    explicit ToolsPlugin(Type t) : m_type(t) {}
    virtual ~ToolsPlugin() noexcept = default;
    Type type() const { return m_type; }
    ToolsProtocolPtr createProtocol() { return createProtocolImpl(); }
protected:
    virtual ToolsProtocolPtr createProtocolImpl() { return ToolsProtocolPtr(); }
private:
    Type m_type;
};

class ToolsMsgFactory
{
public:
    using MessagesListInternal = std::vector<std::shared_ptr<ToolsMessage>>;
    virtual ~ToolsMsgFactory() noexcept = default;
    ToolsMessagesList createAllMessages()
    {
        ToolsMessagesList r;
        for (auto& m : createAllMessagesImpl()) r.push_back(m->clone());
        return r;
    }
    ToolsMessagePtr createMessage(const QString& id, unsigned idx)
    {
        for (auto& m : createAllMessagesImpl()) if (m->idAsString() == id && idx-- == 0) return m->clone();
        return ToolsMessagePtr();
    }
protected:
    virtual MessagesListInternal createAllMessagesImpl() = 0;
};

inline std::string& lastRead() { static std::string s; return s; }
template <template <typename...> class TMsg>
class ToolsProtMsgInterface : public TMsg<comms::option::app::ReadIterator<const std::uint8_t*>, comms::option::app::WriteIterator<std::uint8_t*>,
    comms::option::app::IdInfoInterface, comms::option::app::LengthInfoInterface, comms::option::app::ValidCheckInterface, comms::option::app::NameInterface,
    comms::option::app::RefreshInterface>
{
};

template <class TTuple> ToolsMessage::FieldsList fieldsOf(const TTuple& t)
{
    ToolsMessage::FieldsList r;
    std::apply([&](auto&... f) { ((
        [&] {
            using F = std::decay_t<decltype(f)>;
            auto p = std::make_unique<ToolsField>();
            std::ostringstream o;
            drv::dump(f, o);
            p->dump = o.str();
            std::vector<std::uint8_t> b(f.length() + 1);
            auto* it = b.data();
            f.write(it, f.length());
            p->bytes = "x" + drv::hex(b.data(), static_cast<std::size_t>(it - b.data()));
            if constexpr (requires { F::name(); }) p->name = drv::hexc(F::name()); else p->name = "-";
            r.push_back(std::move(p));
        }()), ...); }, t);
    return r;
}

template <class TBase, class TProtMsg, class TActual> class ToolsCommon : public TBase
{
public:
    TProtMsg& msg() { return m_msg; }
    const TProtMsg& msg() const { return m_msg; }
protected:
    using typename ToolsMessage::DataSeq;
    using typename ToolsMessage::FieldsList;
    using typename ToolsMessage::Ptr;
    virtual const char* nameImpl() const override { return TProtMsg::doName(); }
    virtual bool refreshMsgImpl() override { return m_msg.doRefresh(); }
    virtual QString idAsStringImpl() const override { return TBase::idAsStringImpl(); }
    virtual void resetImpl() override { m_msg = TProtMsg(); }
    virtual bool assignImpl(const ToolsMessage& other) override
    {
        auto* o = dynamic_cast<const TActual*>(&other);
        if (o == nullptr) return false;
        m_msg = o->m_msg;
        return true;
    }
    virtual bool isValidImpl() const override { return m_msg.doValid(); }
    virtual DataSeq encodeDataImpl() const override
    {
        DataSeq b(m_msg.doLength() + 1);
        auto* it = b.data();
        if (m_msg.doWrite(it, m_msg.doLength()) != comms::ErrorStatus::Success) return DataSeq();
        b.resize(static_cast<std::size_t>(it - b.data()));
        return b;
    }
    virtual bool decodeDataImpl(const DataSeq& data) override
    {
        std::vector<std::uint8_t> copy(data);
        copy.resize(data.size() + 512);     // reading behind the end is told by the result
        const std::uint8_t* it = copy.data();
        return m_msg.doRead(it, data.size()) == comms::ErrorStatus::Success;
    }
    virtual Ptr cloneImpl() const override { return Ptr(new TActual(static_cast<const TActual&>(*this))); }
    virtual void assignProtMessageImpl(void* p) override { m_msg = *static_cast<TProtMsg*>(p); }
    virtual DataSeq encodeFramedImpl(ToolsFrame&) const override { return encodeDataImpl(); }
    virtual FieldsList payloadFieldsImpl() override { return fieldsOf(m_msg.fields()); }
private:
    TProtMsg m_msg;
};

template <class TBase, template <typename, typename> class TProtMsg, class TActual>
class ToolsMessageBase : public ToolsCommon<TBase, TProtMsg<typename TBase::ProtInterface, typename TBase::ProtOptions>, TActual>
{
protected:
    using Common = ToolsCommon<TBase, TProtMsg<typename TBase::ProtInterface, typename TBase::ProtOptions>, TActual>;
    using typename ToolsMessage::DataSeq;
    using typename ToolsMessage::FieldsList;
    virtual qlonglong numericIdImpl() const override { return static_cast<qlonglong>(this->msg().doGetId()); }
    virtual DataSeq encodeFramedImpl(ToolsFrame& frame) const override
    {
        return frame.writeProtMsg(static_cast<const typename TBase::ProtInterface*>(&this->msg()));
    }
    virtual FieldsList transportFieldsImpl() override { return fieldsOf(this->msg().transportFields()); }
};

template <class TBase, template <typename, typename> class TProtMsg, class TActual>
class ToolsTransportMessageBase : public ToolsCommon<TBase, TProtMsg<typename TBase::ProtInterface, typename TBase::ProtOptions>, TActual>
{
protected:
    using typename ToolsMessage::FieldsList;
    virtual qlonglong numericIdImpl() const override { return 0; }
    virtual FieldsList transportFieldsImpl() override { return fieldsOf(this->msg().fields()); }
    virtual FieldsList payloadFieldsImpl() override { return FieldsList(); }
};

template <class TMsgBase, class TFields, class TActual>
class ToolsTransportProtMessageBase : public comms::MessageBase<TMsgBase, comms::option::def::StaticNumIdImpl<0>, comms::option::def::FieldsImpl<TFields>, comms::option::def::MsgType<TActual>>
{
public:
    static const char* doName() { return "Transport"; }
};

template <class TBase, class TProtFrame, class TFactory, class TTransportMsg>
class ToolsFrameBase
{
public:
    using DataSeq = ToolsFrame::DataSeq;
    using Iface = typename TBase::ProtInterface;
    // the transport message of what was read; nothing on failure
    ToolsMessagesList readData(const ToolsDataInfo& d, bool)
    {
        ToolsMessagesList r;
        lastRead().clear();
        std::vector<std::uint8_t> copy(d.m_data);
        const std::uint8_t* it = copy.data();
        TProtFrame fr;
        typename TProtFrame::MsgPtr msg;
        if (fr.read(msg, it, copy.size()) != comms::ErrorStatus::Success || !msg) return r;
        std::vector<std::uint8_t> b(msg->length() + 1);
        auto* w = b.data();
        msg->write(w, msg->length());
        lastRead() = std::to_string(static_cast<qlonglong>(msg->getId())) + " " + drv::hexc(msg->name()) + " x" + drv::hex(b.data(), static_cast<std::size_t>(w - b.data()));
        auto t = std::make_unique<TTransportMsg>();
        if (t->decodeData(DataSeq(copy.cbegin(), copy.cbegin() + (it - copy.data())))) r.push_back(std::move(t));
        return r;
    }
    void updateMessage(ToolsMessage&) {}
    ToolsMessagePtr createInvalidMessage() { return ToolsMessagePtr(); }
    ToolsMessagePtr createRawDataMessage() { return ToolsMessagePtr(); }
    ToolsMessagePtr createExtraInfoMessage() { return ToolsMessagePtr(); }
    ToolsMessagesList createAllMessages() { return m_factory.createAllMessages(); }
    ToolsMessagePtr createMessage(const QString& id, unsigned idx) { return m_factory.createMessage(id, idx); }
    DataSeq writeProtMsg(const void* p)
    {
        auto& m = *static_cast<const Iface*>(p);
        TProtFrame fr;
        DataSeq b(fr.length(m) + 1);
        auto* it = b.data();
        if (fr.write(m, it, b.size() - 1) != comms::ErrorStatus::Success) return DataSeq();
        b.resize(static_cast<std::size_t>(it - b.data()));
        return b;
    }
private:
    TFactory m_factory;
};

// commands of the test program
inline void dumpFields(const ToolsMessage::FieldsList& l, std::ostream& o)
{
    o << " " << l.size();
    for (auto& f : l) o << " " << f->name << " " << f->bytes;
}
inline void pluginCmd(ToolsPlugin& p, const char* meta, drv::Tok& t, std::ostream& o)
{
    auto c = t.next();
    auto prot = p.createProtocol();
    auto& fr = prot->frame();
    auto x = [](const ToolsFrame::DataSeq& d) { return "x" + drv::hex(d.data(), d.size()); };
    if (c == "i") {
        o << (p.type() == ToolsPlugin::Type_Protocol) << " " << drv::hexc(meta) << " " << drv::hexs(prot->name().m_str);
        auto l = fr.createAllMessages();
        o << " " << l.size();
        for (auto& m : l) o << " " << m->numericId() << " " << drv::hexc(m->name()) << " " << drv::hexs(m->idAsString().m_str);
        return;
    }
    if (c == "m") {       // of equal ids the one of the given index: default state, then decode, encode
        auto num = std::strtoll(t.next().c_str(), nullptr, 10);
        QString id;
        for (auto& q : fr.createAllMessages()) if (q->numericId() == num) id = q->idAsString();
        auto idx = static_cast<unsigned>(std::strtoul(t.next().c_str(), nullptr, 10));
        auto in = drv::unhex(t.next());
        auto m = fr.createMessage(id, idx);
        if (!m) { o << "-"; return; }
        o << m->numericId() << " " << drv::hexc(m->name()) << " " << m->isValid() << " " << x(m->encodeData());
        auto ok = m->decodeData(in);
        o << " " << ok;
        if (!ok) return;
        o << " " << m->isValid() << " " << x(m->encodeData()) << " " << x(m->encodeFramed(fr));
        auto cl = m->clone();
        auto other = fr.createMessage(id, idx);
        auto as = other->assign(*m);
        m->reset();
        o << " " << x(cl->encodeData()) << " " << as << " " << x(other->encodeData()) << " " << x(m->encodeData());
        for (auto& q : fr.createAllMessages()) o << " " << q->assign(*cl);
        return;
    }
    if (c == "r") {
        auto l = fr.readData(ToolsDataInfo{drv::unhex(t.next())}, true);
        o << (lastRead().empty() ? "-" : lastRead());
        if (!l.empty()) { o << " T " << l[0]->numericId() << " " << x(l[0]->encodeData()); dumpFields(l[0]->transportFields(), o);
            auto all = l[0]->encodeData();
            std::size_t n = 0;
            while (n < all.size() && !l[0]->decodeData(ToolsFrame::DataSeq(all.begin(), all.begin() + static_cast<std::ptrdiff_t>(n)))) ++n;
            o << " " << n;
        }
    }
}
} // namespace cc_tools_qt
