// The macros defining the access by name.
#define COMMS_CAT_(a_, b_) a_##b_
#define COMMS_EACH_1(m_, x_) m_(x_)
#define COMMS_PARENS_ ()
#define COMMS_EXPAND_(...) COMMS_EXP4_(COMMS_EXP4_(COMMS_EXP4_(COMMS_EXP4_(__VA_ARGS__))))
#define COMMS_EXP4_(...) COMMS_EXP3_(COMMS_EXP3_(COMMS_EXP3_(COMMS_EXP3_(__VA_ARGS__))))
#define COMMS_EXP3_(...) COMMS_EXP2_(COMMS_EXP2_(COMMS_EXP2_(COMMS_EXP2_(__VA_ARGS__))))
#define COMMS_EXP2_(...) COMMS_EXP1_(COMMS_EXP1_(COMMS_EXP1_(COMMS_EXP1_(__VA_ARGS__))))
#define COMMS_EXP1_(...) __VA_ARGS__
#define COMMS_EACH_(m_, ...) __VA_OPT__(COMMS_EXPAND_(COMMS_EACH_H_(m_, __VA_ARGS__)))
#define COMMS_EACH_H_(m_, a_, ...) m_(a_) __VA_OPT__(COMMS_EACH_A_ COMMS_PARENS_ (m_, __VA_ARGS__))
#define COMMS_EACH_A_() COMMS_EACH_H_

#define COMMS_IDX_(n_) FieldIdx_##n_,
#define COMMS_NAMES_ENUM_(...) enum FieldIdx : unsigned { COMMS_EACH_(COMMS_IDX_, __VA_ARGS__) FieldIdx_numOfValues };

#define COMMS_MSG_ACC_(n_) \
    using Field_##n_ = std::tuple_element_t<FieldIdx_##n_, CommsFieldsTuple_>; \
    auto& field_##n_() { return std::get<FieldIdx_##n_>(Base::fields()); } \
    const auto& field_##n_() const { return std::get<FieldIdx_##n_>(Base::fields()); }
#define COMMS_MSG_FIELDS_NAMES(...) \
    COMMS_NAMES_ENUM_(__VA_ARGS__) \
    using CommsFieldsTuple_ = typename Base::AllFields; \
    COMMS_EACH_(COMMS_MSG_ACC_, __VA_ARGS__) \
    static_assert(static_cast<std::size_t>(FieldIdx_numOfValues) == std::tuple_size_v<typename Base::AllFields>, "number of names")

#define COMMS_MEM_ACC_(n_) \
    using Field_##n_ = std::tuple_element_t<FieldIdx_##n_, CommsFieldsTuple_>; \
    auto& field_##n_() { return std::get<FieldIdx_##n_>(Base::value()); } \
    const auto& field_##n_() const { return std::get<FieldIdx_##n_>(Base::value()); }
#define COMMS_FIELD_MEMBERS_NAMES(...) \
    COMMS_NAMES_ENUM_(__VA_ARGS__) \
    using CommsFieldsTuple_ = typename Base::ValueType; \
    COMMS_EACH_(COMMS_MEM_ACC_, __VA_ARGS__) \
    static_assert(static_cast<std::size_t>(FieldIdx_numOfValues) == std::tuple_size_v<typename Base::ValueType>, "number of names")

#define COMMS_VAR_ACC_(n_) \
    using Field_##n_ = std::tuple_element_t<FieldIdx_##n_, CommsFieldsTuple_>; \
    auto& initField_##n_() { return Base::template initField<FieldIdx_##n_>(); } \
    void deinitField_##n_() { Base::template deinitField<FieldIdx_##n_>(); } \
    auto& accessField_##n_() { return Base::template accessField<FieldIdx_##n_>(); } \
    const auto& accessField_##n_() const { return Base::template accessField<FieldIdx_##n_>(); }
#define COMMS_VARIANT_MEMBERS_NAMES(...) \
    COMMS_NAMES_ENUM_(__VA_ARGS__) \
    using CommsFieldsTuple_ = typename Base::Members; \
    COMMS_EACH_(COMMS_VAR_ACC_, __VA_ARGS__) \
    static_assert(static_cast<std::size_t>(FieldIdx_numOfValues) == std::tuple_size_v<typename Base::Members>, "number of names")

#define COMMS_TR_IDX_(n_) TransportFieldIdx_##n_,
#define COMMS_TR_ACC_(n_) \
    using TransportField_##n_ = std::tuple_element_t<TransportFieldIdx_##n_, CommsTransportTuple_>; \
    auto& transportField_##n_() { return std::get<TransportFieldIdx_##n_>(Base::transportFields()); } \
    const auto& transportField_##n_() const { return std::get<TransportFieldIdx_##n_>(Base::transportFields()); }
#define COMMS_MSG_TRANSPORT_FIELDS_NAMES(...) \
    enum TransportFieldIdx : unsigned { COMMS_EACH_(COMMS_TR_IDX_, __VA_ARGS__) TransportFieldIdx_numOfValues }; \
    using CommsTransportTuple_ = typename Base::TransportFields; \
    COMMS_EACH_(COMMS_TR_ACC_, __VA_ARGS__) \
    static_assert(static_cast<std::size_t>(TransportFieldIdx_numOfValues) == std::tuple_size_v<typename Base::TransportFields>, "number of names")

#define COMMS_LAYER_IDX_(n_) LayerIdx_##n_,
#define COMMS_LAYER_ACC_(n_) \
    auto& layer_##n_() { return comms::frame::layerAt<LayerIdx_##n_>(static_cast<Base&>(*this)); } \
    const auto& layer_##n_() const { return comms::frame::layerAt<LayerIdx_##n_>(static_cast<const Base&>(*this)); } \
    using Layer_##n_ = std::decay_t<decltype(comms::frame::layerAt<LayerIdx_##n_>(std::declval<Base&>()))>;
#define COMMS_FRAME_LAYERS_NAMES(...) \
    enum LayerIdx_ : unsigned { COMMS_EACH_(COMMS_LAYER_IDX_, __VA_ARGS__) LayerIdx_numOfValues }; \
    COMMS_EACH_(COMMS_LAYER_ACC_, __VA_ARGS__) \
    static_assert(static_cast<std::size_t>(LayerIdx_numOfValues) == Base::NumOfLayers, "number of layers")
#define COMMS_FRAME_LAYERS_NAMES_OUTER(...) COMMS_FRAME_LAYERS_NAMES(__VA_ARGS__)

#define COMMS_BIT_ENUM_(n_) BitIdx_##n_,
#define COMMS_BITMASK_BITS(...) enum BitIdx : unsigned { COMMS_EACH_(COMMS_BIT_ENUM_, __VA_ARGS__) BitIdx_numOfValues }
#define COMMS_BIT_ACC_(n_) \
    bool getBitValue_##n_() const { return Base::getBitValue(BitIdx_##n_); } \
    void setBitValue_##n_(bool v_) { Base::setBitValue(BitIdx_##n_, v_); }
#define COMMS_BITMASK_BITS_ACCESS(...) COMMS_EACH_(COMMS_BIT_ACC_, __VA_ARGS__)
#define COMMS_BITMASK_BITS_ACCESS_NOTEMPLATE(...) COMMS_BITMASK_BITS_ACCESS(__VA_ARGS__)
#define COMMS_BITMASK_BITS_SEQ(...) \
    COMMS_BITMASK_BITS(__VA_ARGS__); \
    COMMS_BITMASK_BITS_ACCESS(__VA_ARGS__)
#define COMMS_BITMASK_BITS_SEQ_NOTEMPLATE(...) COMMS_BITMASK_BITS_SEQ(__VA_ARGS__)

// aliases: the last name is the real one inside the previous ones
#define COMMS_ALIAS_STEP_(n_) .field_##n_()
#define COMMS_MSG_FIELD_ALIAS(n_, f_, ...) \
    auto& field_##n_() { return field_##f_() COMMS_EACH_(COMMS_ALIAS_STEP_, __VA_ARGS__); } \
    const auto& field_##n_() const { return field_##f_() COMMS_EACH_(COMMS_ALIAS_STEP_, __VA_ARGS__); } \
    static_assert(true, "")
#define COMMS_FIELD_ALIAS(n_, ...) COMMS_MSG_FIELD_ALIAS(n_, __VA_ARGS__)
#define COMMS_MSG_TRANSPORT_FIELD_ALIAS(n_, f_, ...) \
    auto& transportField_##n_() { return transportField_##f_() COMMS_EACH_(COMMS_ALIAS_STEP_, __VA_ARGS__); } \
    const auto& transportField_##n_() const { return transportField_##f_() COMMS_EACH_(COMMS_ALIAS_STEP_, __VA_ARGS__); } \
    static_assert(true, "")
