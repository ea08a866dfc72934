"alg",
"algName",
"alias",
"and",
"availableLengthLimit",
"big",
"bit",
"bitLength",
"bitfield",
"both",
"bundle",
"checksum",
"checksumFrom",
"checksumUntil",
"client",
"cond",
"construct",
"constructAsReadCond",
"constructAsValidCond",
"copyCodeFrom",
"copyConstructFrom",
"copyFieldsAliases",
"copyFieldsFrom",
"copyReadCondFrom",
"copyValidCondFrom",
"count",
"countPrefix",
"custom",
"customizable",
"data",
"defaultMember",
"defaultMode",
"defaultValidValue",
"defaultValue",
"deprecated",
"description",
"displayDecimals",
"displayExtModeCtrl",
"displayHidden",
"displayIdxReadOnlyHidden",
"displayName",
"displayOffset",
"displayReadOnly",
"displaySpecials",
"dslVersion",
"elemFixedLength",
"elemLengthPrefix",
"element",
"encoding",
"endian",
"enum",
"escField",
"failOnInvalid",
"field",
"fields",
"fixedValue",
"float",
"forceGen",
"frame",
"frames",
"from",
"hexAssign",
"id",
"idReplacement",
"idx",
"inf",
"int",
"interface",
"interfaceFieldName",
"interfaces",
"layers",
"length",
"lengthOverride",
"lengthPrefix",
"list",
"little",
"max",
"members",
"message",
"messageId",
"messages",
"meta",
"min",
"missingOnInvalid",
"missingOnReadFail",
"name",
"nameOverride",
"nan",
"nonUniqueAllowed",
"nonUniqueMsgIdAllowed",
"nonUniqueSpecialsAllowed",
"none",
"ns",
"optional",
"or",
"order",
"payload",
"platform",
"platforms",
"pseudo",
"readCond",
"readOverride",
"ref",
"refreshOverride",
"removed",
"replace",
"reserved",
"reservedValue",
"reuse",
"reuseAliases",
"reuseCode",
"scaling",
"seekField",
"semanticLayerType",
"semanticType",
"sender",
"serOffset",
"server",
"set",
"signExt",
"sinceVersion",
"size",
"special",
"string",
"sync",
"termSuffix",
"type",
"units",
"until",
"val",
"validCheckVersion",
"validCond",
"validFullRange",
"validMax",
"validMin",
"validOverride",
"validRange",
"validValue",
"validateMinLength",
"value",
"valueOverride",
"variant",
"verifyBeforeRead",
"version",
"writeOverride",
"zeroTermSuffix",
"xt_a",
"unknown",
