// generated by tools/gen_tables.py
pub static UPROBES: &[&dyn Probe<u32>] = &[
    #[cfg(feature = "channel-voice1")]
    &KCv1NoteOff,
    #[cfg(feature = "channel-voice1")]
    &KCv1NoteOn,
    #[cfg(feature = "channel-voice1")]
    &KCv1KeyPressure,
    #[cfg(feature = "channel-voice1")]
    &KCv1ControlChange,
    #[cfg(feature = "channel-voice1")]
    &KCv1ProgramChange,
    #[cfg(feature = "channel-voice1")]
    &KCv1ChannelPressure,
    #[cfg(feature = "channel-voice1")]
    &KCv1PitchBend,
    #[cfg(feature = "system-common")]
    &KScTimeCode,
    #[cfg(feature = "system-common")]
    &KScSongPositionPointer,
    #[cfg(feature = "system-common")]
    &KScSongSelect,
    #[cfg(feature = "system-common")]
    &KScTuneRequest,
    #[cfg(feature = "system-common")]
    &KScTimingClock,
    #[cfg(feature = "system-common")]
    &KScStart,
    #[cfg(feature = "system-common")]
    &KScContinue,
    #[cfg(feature = "system-common")]
    &KScStop,
    #[cfg(feature = "system-common")]
    &KScActiveSensing,
    #[cfg(feature = "system-common")]
    &KScReset,
    #[cfg(feature = "channel-voice2")]
    &KCv2RegisteredPerNoteController,
    #[cfg(feature = "channel-voice2")]
    &KCv2AssignablePerNoteController,
    #[cfg(feature = "channel-voice2")]
    &KCv2RegisteredController,
    #[cfg(feature = "channel-voice2")]
    &KCv2AssignableController,
    #[cfg(feature = "channel-voice2")]
    &KCv2RelativeRegisteredController,
    #[cfg(feature = "channel-voice2")]
    &KCv2RelativeAssignableController,
    #[cfg(feature = "channel-voice2")]
    &KCv2PerNotePitchBend,
    #[cfg(feature = "channel-voice2")]
    &KCv2NoteOff,
    #[cfg(feature = "channel-voice2")]
    &KCv2NoteOn,
    #[cfg(feature = "channel-voice2")]
    &KCv2KeyPressure,
    #[cfg(feature = "channel-voice2")]
    &KCv2ControlChange,
    #[cfg(feature = "channel-voice2")]
    &KCv2ProgramChange,
    #[cfg(feature = "channel-voice2")]
    &KCv2ChannelPressure,
    #[cfg(feature = "channel-voice2")]
    &KCv2ChannelPitchBend,
    #[cfg(feature = "channel-voice2")]
    &KCv2PerNoteManagement,
    #[cfg(feature = "utility")]
    &KUtNoOp,
    #[cfg(feature = "utility")]
    &KUtClock,
    #[cfg(feature = "utility")]
    &KUtTimestamp,
    #[cfg(feature = "utility")]
    &KUtDeltaClockstampTpq,
    #[cfg(feature = "utility")]
    &KUtDeltaClockstamp,
    #[cfg(feature = "flex-data")]
    &KFlexSetTempo,
    #[cfg(feature = "flex-data")]
    &KFlexSetTimeSignature,
    #[cfg(feature = "flex-data")]
    &KFlexSetMetronome,
    #[cfg(feature = "flex-data")]
    &KFlexSetKeySignature,
    #[cfg(feature = "flex-data")]
    &KFlexSetChordName,
    #[cfg(feature = "flex-data")]
    &KFlexUnknownMetadataText,
    #[cfg(feature = "flex-data")]
    &KFlexProjectName,
    #[cfg(feature = "flex-data")]
    &KFlexCompositionName,
    #[cfg(feature = "flex-data")]
    &KFlexMidiClipName,
    #[cfg(feature = "flex-data")]
    &KFlexCopyrightNotice,
    #[cfg(feature = "flex-data")]
    &KFlexComposerName,
    #[cfg(feature = "flex-data")]
    &KFlexLyricistName,
    #[cfg(feature = "flex-data")]
    &KFlexArrangerName,
    #[cfg(feature = "flex-data")]
    &KFlexPublisherName,
    #[cfg(feature = "flex-data")]
    &KFlexPrimaryPerformerName,
    #[cfg(feature = "flex-data")]
    &KFlexAccompanyingPerformerName,
    #[cfg(feature = "flex-data")]
    &KFlexRecordingDate,
    #[cfg(feature = "flex-data")]
    &KFlexRecordingLocation,
    #[cfg(feature = "flex-data")]
    &KFlexUnknownPerformanceText,
    #[cfg(feature = "flex-data")]
    &KFlexLyrics,
    #[cfg(feature = "flex-data")]
    &KFlexLyricsLanguage,
    #[cfg(feature = "flex-data")]
    &KFlexRuby,
    #[cfg(feature = "flex-data")]
    &KFlexRubyLanguage,
    #[cfg(feature = "ump-stream")]
    &KStreamEndpointDiscovery,
    #[cfg(feature = "ump-stream")]
    &KStreamEndpointInfo,
    #[cfg(feature = "ump-stream")]
    &KStreamDeviceIdentity,
    #[cfg(feature = "ump-stream")]
    &KStreamEndpointName,
    #[cfg(feature = "ump-stream")]
    &KStreamProductInstanceId,
    #[cfg(feature = "ump-stream")]
    &KStreamStreamConfigurationRequest,
    #[cfg(feature = "ump-stream")]
    &KStreamStreamConfigurationNotification,
    #[cfg(feature = "ump-stream")]
    &KStreamFunctionBlockDiscovery,
    #[cfg(feature = "ump-stream")]
    &KStreamFunctionBlockInfo,
    #[cfg(feature = "ump-stream")]
    &KStreamFunctionBlockName,
    #[cfg(feature = "ump-stream")]
    &KStreamStartOfClip,
    #[cfg(feature = "ump-stream")]
    &KStreamEndOfClip,
    #[cfg(feature = "sysex7")]
    &KS7Sysex7,
    #[cfg(feature = "sysex8")]
    &KS8Sysex8,
];
pub static BPROBES: &[&dyn Probe<u8>] = &[
    #[cfg(feature = "channel-voice1")]
    &KCv1NoteOffB,
    #[cfg(feature = "channel-voice1")]
    &KCv1NoteOnB,
    #[cfg(feature = "channel-voice1")]
    &KCv1KeyPressureB,
    #[cfg(feature = "channel-voice1")]
    &KCv1ControlChangeB,
    #[cfg(feature = "channel-voice1")]
    &KCv1ProgramChangeB,
    #[cfg(feature = "channel-voice1")]
    &KCv1ChannelPressureB,
    #[cfg(feature = "channel-voice1")]
    &KCv1PitchBendB,
    #[cfg(feature = "system-common")]
    &KScTimeCodeB,
    #[cfg(feature = "system-common")]
    &KScSongPositionPointerB,
    #[cfg(feature = "system-common")]
    &KScSongSelectB,
    #[cfg(feature = "system-common")]
    &KScTuneRequestB,
    #[cfg(feature = "system-common")]
    &KScTimingClockB,
    #[cfg(feature = "system-common")]
    &KScStartB,
    #[cfg(feature = "system-common")]
    &KScContinueB,
    #[cfg(feature = "system-common")]
    &KScStopB,
    #[cfg(feature = "system-common")]
    &KScActiveSensingB,
    #[cfg(feature = "system-common")]
    &KScResetB,
    #[cfg(feature = "sysex7")]
    &KS7Sysex7B,
];
