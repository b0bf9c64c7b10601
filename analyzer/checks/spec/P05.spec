property P05
entry modes/reader.ReadMessage(message[7])
  others ignored
entry modes/reader.ReadMessage(message[14])
  others ignored
layout modes/messages.MessageDF0
  VerticalStatus = b6
  CrossLinkCapability = b7
  SensitivityLevel = b9-11
  ReplyInformation = b14-17
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,32)
  MessageData.Parity = bytes(33,56)
layout modes/messages.MessageDF4
  FlightStatus = b6-8
  DownlinkRequest = b9-13
  UtilityMessage.InterrogatorIdentifier = b14-17
  UtilityMessage.IdentifierDesignator = b18-19
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,32)
  MessageData.Parity = bytes(33,56)
layout modes/messages.MessageDF5
  FlightStatus = b6-8
  DownlinkRequest = b9-13
  UtilityMessage.InterrogatorIdentifier = b14-17
  UtilityMessage.IdentifierDesignator = b18-19
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,32)
  MessageData.Parity = bytes(33,56)
layout modes/messages.MessageDF11
  Capability = b6-8
  AddressAnnounced.Address = b9-32
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,32)
  MessageData.Parity = bytes(33,56)
layout modes/messages.MessageDF16
  VerticalStatus = b6
  SensitivityLevel = b9-11
  ReplyInformation = b14-17
  MessageACAS = bytes(33,88)
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,88)
  MessageData.Parity = bytes(89,112)
layout modes/messages.MessageDF17
  Capability = b6-8
  AddressAnnounced.Address = b9-32
  MessageExtendedSquitter = bytes(33,88)
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,88)
  MessageData.Parity = bytes(89,112)
layout modes/messages.MessageDF18
  ControlField = b6-8
  AddressAnnounced.Address = b9-32
  MessageExtendedSquitter = bytes(33,88)
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,88)
  MessageData.Parity = bytes(89,112)
layout modes/messages.MessageDF19
  ApplicationField = b6-8
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,88)
  MessageData.Parity = bytes(89,112)
layout modes/messages.MessageDF20
  FlightStatus = b6-8
  DownlinkRequest = b9-13
  UtilityMessage.InterrogatorIdentifier = b14-17
  UtilityMessage.IdentifierDesignator = b18-19
  MessageCommB = bytes(33,88)
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,88)
  MessageData.Parity = bytes(89,112)
layout modes/messages.MessageDF21
  FlightStatus = b6-8
  DownlinkRequest = b9-13
  UtilityMessage.InterrogatorIdentifier = b14-17
  UtilityMessage.IdentifierDesignator = b18-19
  MessageCommB = bytes(33,88)
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,88)
  MessageData.Parity = bytes(89,112)
layout modes/messages.MessageDF24
  ControlELM = b4
  NumberOfDSegment = b5-8
  MessageCommD = bytes(9,88)
  MessageData.DownLinkFormat = b1-5
  MessageData.FirstField = b6-8
  MessageData.Payload = bytes(9,88)
  MessageData.Parity = bytes(89,112)
