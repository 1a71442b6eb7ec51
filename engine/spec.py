"""The MQTT 5 wire format as tables: the oracle both directions of the codec are compared with.
Numbers are from the OASIS MQTT 5.0 standard (section numbers beside them)."""

# 2.2.2.2 property identifiers: identifier -> (meaning, wire type)
PROPERTY_TYPES = {
    0x01: ('payload format indicator', 'u8'), 0x02: ('message expiry interval', 'u32'), 0x03: ('content type', 'str'),
    0x08: ('response topic', 'str'), 0x09: ('correlation data', 'bin'), 0x0b: ('subscription identifier', 'vbi'),
    0x11: ('session expiry interval', 'u32'), 0x12: ('assigned client identifier', 'str'), 0x13: ('server keep alive', 'u16'),
    0x15: ('authentication method', 'str'), 0x16: ('authentication data', 'bin'), 0x17: ('request problem information', 'u8'),
    0x18: ('will delay interval', 'u32'), 0x19: ('request response information', 'u8'), 0x1a: ('response information', 'str'),
    0x1c: ('server reference', 'str'), 0x1f: ('reason string', 'str'), 0x21: ('receive maximum', 'u16'),
    0x22: ('topic alias maximum', 'u16'), 0x23: ('topic alias', 'u16'), 0x24: ('maximum QoS', 'u8'), 0x25: ('retain available', 'u8'),
    0x26: ('user property', 'pair'), 0x27: ('maximum packet size', 'u32'), 0x28: ('wildcard subscription available', 'u8'),
    0x29: ('subscription identifiers available', 'u8'), 0x2a: ('shared subscription available', 'u8'),
}

# which properties each section may carry (3.x.2), with the public field that holds them.
# 'multi' marks lists.
_REASON = {0x1f: 'reason_string', 0x26: 'user_properties'}
SECTIONS = {
    'ConnectProperties': {0x11: 'session_expiry_interval', 0x21: 'receive_maximum', 0x27: 'max_packet_size', 0x22: 'topic_alias_max',
                          0x19: 'request_response_info', 0x17: 'request_problem_info', 0x26: 'user_properties',
                          0x15: 'authentication_method', 0x16: 'authentication_data'},
    'LastWillProperties': {0x18: 'delay_interval', 0x01: 'payload_format_indicator', 0x02: 'message_expiry_interval', 0x03: 'content_type',
                           0x08: 'response_topic', 0x09: 'correlation_data', 0x26: 'user_properties'},
    'ConnAckProperties': {0x11: 'session_expiry_interval', 0x21: 'receive_max', 0x24: 'max_qos', 0x25: 'retain_available',
                          0x27: 'max_packet_size', 0x12: 'assigned_client_identifier', 0x22: 'topic_alias_max', 0x1f: 'reason_string',
                          0x26: 'user_properties', 0x28: 'wildcard_subscription_available', 0x29: 'subscription_identifiers_available',
                          0x2a: 'shared_subscription_available', 0x13: 'server_keep_alive', 0x1a: 'response_information',
                          0x1c: 'server_reference', 0x15: 'authentication_method', 0x16: 'authentication_data'},
    'PublishProperties': {0x01: 'payload_format_indicator', 0x02: 'message_expiry_interval', 0x23: 'topic_alias', 0x08: 'response_topic',
                          0x09: 'correlation_data', 0x26: 'user_properties', 0x0b: 'subscription_identifiers', 0x03: 'content_type'},
    'PubAckProperties': _REASON, 'PubRecProperties': _REASON, 'PubRelProperties': _REASON, 'PubCompProperties': _REASON,
    'SubscribeProperties': {0x0b: 'id', 0x26: 'user_properties'},
    'SubAckProperties': _REASON, 'UnsubAckProperties': _REASON,
    'UnsubscribeProperties': {0x26: 'user_properties'},
    'DisconnectProperties': {0x11: 'session_expiry_interval', 0x1f: 'reason_string', 0x26: 'user_properties', 0x1c: 'server_reference'},
}
MULTI = {'user_properties', 'subscription_identifiers'}

# reason codes: variant -> byte (2.4 and 3.x); SubAck Success carries a QoS
_ACK = {'Success': 0, 'NoMatchingSubscribers': 0x10, 'UnspecifiedError': 0x80, 'ImplementationSpecificError': 0x83, 'NotAuthorized': 0x87,
        'TopicNameInvalid': 0x90, 'PacketIdentifierInUse': 0x91, 'QuotaExceeded': 0x97, 'PayloadFormatInvalid': 0x99}
_REL = {'Success': 0, 'PacketIdentifierNotFound': 0x92}
CODES = {
    'ConnectReturnCode': {'Success': 0, 'UnspecifiedError': 0x80, 'MalformedPacket': 0x81, 'ProtocolError': 0x82,
                          'ImplementationSpecificError': 0x83, 'UnsupportedProtocolVersion': 0x84, 'ClientIdentifierNotValid': 0x85,
                          'BadUserNamePassword': 0x86, 'NotAuthorized': 0x87, 'ServerUnavailable': 0x88, 'ServerBusy': 0x89, 'Banned': 0x8a,
                          'BadAuthenticationMethod': 0x8c, 'TopicNameInvalid': 0x90, 'PacketTooLarge': 0x95, 'QuotaExceeded': 0x97,
                          'PayloadFormatInvalid': 0x99, 'RetainNotSupported': 0x9a, 'QoSNotSupported': 0x9b, 'UseAnotherServer': 0x9c,
                          'ServerMoved': 0x9d, 'ConnectionRateExceeded': 0x9f},
    'PubAckReason': _ACK, 'PubRecReason': _ACK, 'PubRelReason': _REL, 'PubCompReason': _REL,
    'UnsubAckReason': {'Success': 0, 'NoSubscriptionExisted': 0x11, 'UnspecifiedError': 0x80, 'ImplementationSpecificError': 0x83,
                       'NotAuthorized': 0x87, 'TopicFilterInvalid': 0x8f, 'PacketIdentifierInUse': 0x91},
    'SubscribeReasonCode': {('Success', 'AtMostOnce'): 0, ('Success', 'AtLeastOnce'): 1, ('Success', 'ExactlyOnce'): 2,
                            'Unspecified': 0x80, 'ImplementationSpecific': 0x83, 'NotAuthorized': 0x87, 'TopicFilterInvalid': 0x8f,
                            'PkidInUse': 0x91, 'QuotaExceeded': 0x97, 'SharedSubscriptionsNotSupported': 0x9e,
                            'SubscriptionIdNotSupported': 0xa1, 'WildcardSubscriptionsNotSupported': 0xa2},
    'DisconnectReasonCode': {'NormalDisconnection': 0, 'DisconnectWithWillMessage': 4, 'UnspecifiedError': 0x80, 'MalformedPacket': 0x81,
                             'ProtocolError': 0x82, 'ImplementationSpecificError': 0x83, 'NotAuthorized': 0x87, 'ServerBusy': 0x89,
                             'ServerShuttingDown': 0x8b, 'KeepAliveTimeout': 0x8d, 'SessionTakenOver': 0x8e, 'TopicFilterInvalid': 0x8f,
                             'TopicNameInvalid': 0x90, 'ReceiveMaximumExceeded': 0x93, 'TopicAliasInvalid': 0x94, 'PacketTooLarge': 0x95,
                             'MessageRateTooHigh': 0x96, 'QuotaExceeded': 0x97, 'AdministrativeAction': 0x98, 'PayloadFormatInvalid': 0x99,
                             'RetainNotSupported': 0x9a, 'QoSNotSupported': 0x9b, 'UseAnotherServer': 0x9c, 'ServerMoved': 0x9d,
                             'SharedSubscriptionNotSupported': 0x9e, 'ConnectionRateExceeded': 0x9f, 'MaximumConnectTime': 0xa0,
                             'SubscriptionIdentifiersNotSupported': 0xa1, 'WildcardSubscriptionsNotSupported': 0xa2},
}
# codes of MQTT 3.1.1 that the public type still names but MQTT 5 has no byte for
NOT_V5 = {'ConnectReturnCode': {'RefusedProtocolVersion', 'BadClientId', 'ServiceUnavailable'}}
QOS = {'AtMostOnce': 0, 'AtLeastOnce': 1, 'ExactlyOnce': 2}
RETAIN_HANDLING = {'OnEverySubscribe': 0, 'OnNewSubscribe': 1, 'Never': 2}

# 2.1.3 fixed header flags
FLAGS = {'PubRel': 2, 'Subscribe': 2, 'Unsubscribe': 2}
# type of the ack reason field of each acknowledgement
ACKS = {'PubAck': 'PubAckReason', 'PubRec': 'PubRecReason', 'PubRel': 'PubRelReason', 'PubComp': 'PubCompReason'}
MAXVBI = 268435455
