// generated by tools/gen_tables.py
pub static UKITS: &[&dyn Kit<u32>] = &[&KCv1NoteOff, &KCv1NoteOn, &KCv1KeyPressure, &KCv1ControlChange, &KCv1ProgramChange, &KCv1ChannelPressure, &KCv1PitchBend, &KScTimeCode, &KScSongPositionPointer, &KScSongSelect, &KScTuneRequest, &KScTimingClock, &KScStart, &KScContinue, &KScStop, &KScActiveSensing, &KScReset, &KCv2RegisteredPerNoteController, &KCv2AssignablePerNoteController, &KCv2RegisteredController, &KCv2AssignableController, &KCv2RelativeRegisteredController, &KCv2RelativeAssignableController, &KCv2PerNotePitchBend, &KCv2NoteOff, &KCv2NoteOn, &KCv2KeyPressure, &KCv2ControlChange, &KCv2ProgramChange, &KCv2ChannelPressure, &KCv2ChannelPitchBend, &KCv2PerNoteManagement, &KUtNoOp, &KUtClock, &KUtTimestamp, &KUtDeltaClockstampTpq, &KUtDeltaClockstamp, &KFlexSetTempo, &KFlexSetTimeSignature, &KFlexSetMetronome, &KFlexSetKeySignature, &KFlexSetChordName, &KFlexUnknownMetadataText, &KFlexProjectName, &KFlexCompositionName, &KFlexMidiClipName, &KFlexCopyrightNotice, &KFlexComposerName, &KFlexLyricistName, &KFlexArrangerName, &KFlexPublisherName, &KFlexPrimaryPerformerName, &KFlexAccompanyingPerformerName, &KFlexRecordingDate, &KFlexRecordingLocation, &KFlexUnknownPerformanceText, &KFlexLyrics, &KFlexLyricsLanguage, &KFlexRuby, &KFlexRubyLanguage, &KStreamEndpointDiscovery, &KStreamEndpointInfo, &KStreamDeviceIdentity, &KStreamEndpointName, &KStreamProductInstanceId, &KStreamStreamConfigurationRequest, &KStreamStreamConfigurationNotification, &KStreamFunctionBlockDiscovery, &KStreamFunctionBlockInfo, &KStreamFunctionBlockName, &KStreamStartOfClip, &KStreamEndOfClip, &KS7Sysex7, &KS8Sysex8];
pub static BKITS: &[&dyn Kit<u8>] = &[&KCv1NoteOffB, &KCv1NoteOnB, &KCv1KeyPressureB, &KCv1ControlChangeB, &KCv1ProgramChangeB, &KCv1ChannelPressureB, &KCv1PitchBendB, &KScTimeCodeB, &KScSongPositionPointerB, &KScSongSelectB, &KScTuneRequestB, &KScTimingClockB, &KScStartB, &KScContinueB, &KScStopB, &KScActiveSensingB, &KScResetB, &KS7Sysex7B];
