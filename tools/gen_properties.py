#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
G='c/gnss_converters/src/'; L='c/librtcm/src/'; X='c/gnss_converters_extra/src/'; N='c/nov2sbp/'
SAMPLES="The existing tests replay a handful of captured files or hand-made messages and are not even built here."

prop('C01','Any byte stream through the RTCM-to-SBP converter is handled safely',
 '''Whatever bytes are fed to the RTCM3-to-SBP converter, it never reads or writes outside its buffers, never aborts
 and never spins; every call consumes input or reports end of input.  Every SBP message it hands to its callback is
 well formed: its counts fit the message and it can be serialised to at most 255 bytes.''',
 ['inputs'],'all byte streams, including frames with a valid CRC whose contents are arbitrary, in any order and chunking, with and without a known time',
 SAMPLES+' A crash needs one specific field combination out of an unbounded input space.',
 [G+'rtcm3_sbp.c',G+'rtcm3_utils.c',G+'rtcm3_sbp_ssr.c',L+'decode.c',L+'ssr_decode.c',L+'sta_decode.c',L+'eph_decode.c'],
 [('frame scan and CRC check','rtcm2sbp_process'),('per message bounds checks','rtcm2sbp_decode_frame, rtcm3_decode_*')],['SBP callback'])
prop('C02','Any byte stream through the UBX-to-SBP converter is handled safely',
 '''Whatever bytes are fed to the UBX-to-SBP converter, it never reads or writes outside its buffers, never aborts and
 never spins, and it reports end of input when the input ends.  Every SBP message it emits is well formed and serialisable.''',
 ['inputs'],'all byte streams, including checksum-valid frames with arbitrary class, id, length and contents, in any order',
 SAMPLES,[G+'ubx_sbp.c',G+'ubx_ephemeris/gps.c',G+'ubx_ephemeris/gal.c',G+'ubx_ephemeris/bds.c',G+'ubx_ephemeris/glo.c','c/libubx/src/decode.c'],
 [('frame reader','read_ubx_frame'),('payload length checks','ubx_decode_*')],['SBP callback','return value'])
prop('C03','Any byte stream through the iXCOM-to-SBP converter is handled safely',
 '''Whatever bytes are fed to the iXCOM-to-SBP converter, it never reads or writes outside its buffers, never aborts and
 never spins, and it reports end of input only when the input has ended.  Every SBP message it emits is well formed.''',
 ['inputs'],'all byte streams, including frames whose length field is any 16-bit value',SAMPLES,
 [G+'ixcom_sbp.c','c/libixcom/src/decode.c'],[('frame reader','read_ixcom_frame')],['SBP callback','return value'])
prop('C04','Any byte stream through the NovAtel parser and converter is handled safely',
 '''Whatever bytes are fed to the NovAtel parser or the NovAtel-to-SBP converter, nothing outside its buffers is touched and
 it neither aborts nor spins.  In particular a message with a valid CRC but an unexpected length, record count, satellite
 number or out-of-range value is skipped or saturated, not trusted.''',
 ['inputs'],'all byte streams, including CRC-valid messages with arbitrary header and body',SAMPLES,
 [N+'parser/parser.cc',N+'parser/binary_header.cc',N+'src/nov2sbp.cc',N+'src/swiftnav_conversion_helpers.cc'],
 [('header/body/CRC parse','Parser::parse_*')],['parser callback','SBP output'])
prop('C05','Any SBP message through the SBP-to-RTCM converter is handled safely',
 '''Whatever payload, length and order of SBP messages is handed to the SBP-to-RTCM converter, it touches nothing outside its
 buffers and neither aborts nor spins.  Everything it writes is a sequence of complete RTCM3 frames: preamble, length that
 matches, and a correct CRC.''',
 ['inputs','histories'],'all sequences of SBP payloads of 0..255 bytes for every message type the converter registers',
 SAMPLES,[X+'sbp_rtcm3.c',X+'sbp_rtcm3_ephemeris.c',X+'sbp_conv.c',L+'encode.c',L+'eph_encode.c'],
 [('length checks and buffers','sbp2rtcm_*_cb'),('frame output','sbp2rtcm_send_frame')],['RTCM output callback','sbp_conv'])
prop('C06','Any SBP history yields only well-formed NMEA sentences',
 '''For any sequence of SBP messages with any field values, the SBP-to-NMEA converter touches nothing outside its buffers and
 never aborts, and each thing it emits is exactly one sentence: `$`, printable characters, `*`, two upper-case hex digits equal
 to the XOR of the characters in between, carriage return, line feed.''',
 ['inputs','histories'],'all sequences of SBP navigation, time, observation and satellite-state messages with arbitrary field values; all modes and rate settings',
 'Tests replay one recorded drive and compare a few lines.',[G+'nmea.c',G+'sbp_nmea.c'],
 [('sentence buffer and checksum','nmea_append_checksum / vsnprintf_wrap')],['NMEA callback'])
prop('C07','RTCM framing: only intact frames are converted, and every intact frame is',
 '''A stream made of intact RTCM3 frames with arbitrary garbage or damaged frames in between yields exactly the SBP messages
 that the intact frames alone would yield, in order.  A frame damaged by any error burst of up to 24 bits yields nothing of its own.''',
 ['inputs'],'all interleavings of intact frames with garbage (including garbage with preamble bytes and bogus lengths) and with damaged frames',
 SAMPLES+' None of them inserts damage.',[G+'rtcm3_sbp.c'],[('preamble scan, length bound, CRC24Q, one-byte resync','rtcm2sbp_process')],['SBP callback'])
prop('C08','UBX, iXCOM and NovAtel framing: only frames with a correct checksum count',
 '''A UBX, iXCOM or NovAtel frame whose checksum does not match its bytes yields no output, and frames that follow the damaged
 frame or garbage free of sync patterns are converted as if the damage had not been there (for UBX and iXCOM the damage lies
 outside the length field, which decides where the frame ends).''',
 ['inputs'],'all interleavings of intact frames, damaged frames (length field intact) and garbage',
 SAMPLES,[G+'ubx_sbp.c',G+'ixcom_sbp.c',N+'parser/parser.cc',N+'parser/crc_checker.cc','c/libixcom/src/decode.c','c/libubx/src/decode.c'],
 [('Fletcher checksum','ubx_checksum'),('CRC16','ixcom_checksum'),('CRC32','CrcChecker')],['SBP callback','parser callback'])
prop('C09','Output does not depend on how the input bytes are chunked',
 '''For RTCM, UBX, iXCOM and NovAtel input, the messages produced from a byte stream are the same however the reader splits it
 into chunks.''',
 ['inputs','schedules'],'all byte streams (valid, damaged, random) and all ways to split them into non-empty reads',
 'The tests read whole files with one reader.',[G+'rtcm3_sbp.c',G+'ubx_sbp.c',G+'ixcom_sbp.c',N+'parser/parser.cc'],
 [('input buffering','rtcm2sbp_process, read_ubx_frame, read_ixcom_frame, Parser::process')],['SBP callback','parser callback'])
prop('C10','RTCM station, text, bias and legacy observation messages decode per the standard',
 '''For every field assignment, decoding RTCM 1001-1004, 1005, 1006, 1007, 1008, 1010, 1012, 1029, 1033, 1230 and 4062 returns exactly
 the values the RTCM 10403 bit layout assigns to the payload bits, with sign, scale, validity and lock-time tables applied.''',
 ['inputs'],'all payload bit patterns of these messages that the standard allows','Tests round-trip one or two hand-made messages through the repository\'s own encoder, so a layout error common to both is invisible.',
 [L+'decode.c',L+'sta_decode.c',L+'bits.c'],[('field readers','rtcm3_decode_10xx')],['decoded structs'])
prop('C11','RTCM ephemeris messages decode per the standard',
 '''For every field assignment, decoding RTCM 1019, 1020, 1042, 1044, 1045 and 1046 returns for every element of the ephemeris exactly
 the raw value (sign included) that the standard\'s bit layout assigns to it.''',
 ['inputs'],'all payload bit patterns','Round trips through the own encoder with a few values.',
 [L+'eph_decode.c'],[('field readers','rtcm3_decode_*_eph')],['decoded structs'])
prop('C12','RTCM MSM messages decode per the standard',
 '''For every constellation, MSM type 4-7 and satellite/signal/cell mask, decoding returns for each cell the pseudorange, carrier phase,
 lock time, half-cycle flag, C/N0 and range rate that the standard defines, with fields the standard marks invalid reported as invalid.''',
 ['inputs'],'all masks with at most 64 cells, all header and field values','Tests use a few synthetic MSMs with one satellite pattern.',
 [L+'decode.c',L+'msm_utils.c'],[('MSM field readers','rtcm3_decode_msm*')],['decoded structs'])
prop('C13','RTCM SSR messages decode per the standard',
 '''For every constellation, decoding SSR orbit, clock, combined, code-bias and phase-bias messages returns exactly the satellites,
 issue numbers, corrections and biases that the payload bits encode, signs and constellation-specific widths included.''',
 ['inputs'],'all SSR payloads for GPS, GLONASS, Galileo, QZSS, BeiDou and SBAS','Tests replay three captures.',
 [L+'ssr_decode.c'],[('SSR readers','rtcm3_decode_*orbit* / *bias*')],['decoded structs'])
prop('C14','An RTCM message cut short is never accepted as complete',
 '''If the payload ends before the last field its own header calls for, the decoder reports an error and the converter emits nothing
 for it, rather than filling in missing fields.''',
 ['inputs'],'all supported RTCM messages and all truncation points','No test truncates a message.',
 [L+'decode.c',L+'ssr_decode.c',L+'sta_decode.c',L+'eph_decode.c',G+'rtcm3_sbp.c'],[('remaining-length checks','BITSTREAM_DECODE_*')],['return code','SBP callback'])
prop('C15','RTCM encoding follows the standard and round-trips through decoding',
 '''For every message within field ranges, the bits the encoder produces are those of the standard\'s layout, the returned length is the
 exact payload length, and decoding the result gives back the same values up to field resolution.''',
 ['inputs'],'all encodable messages: 1001-1008, 1010, 1012, 1029, 1033, 1230, 1019, 1020, 1042, 1045, 1046, MSM4/5/6/7, 4062','Tests check a few values.',
 [L+'encode.c',L+'eph_encode.c',L+'bits.c'],[('field writers','rtcm3_encode_*')],['encoded buffer'])
prop('C16','RTCM observations become SBP observations with the same measurements',
 '''For each epoch of MSM or legacy RTCM observations, the SBP observation set carries exactly the supported signals received, each with
 pseudorange, carrier phase, Doppler, C/N0, lock and validity flags equal to the RTCM values in SBP units, split over consecutively
 numbered messages that all state the same total and epoch time.''',
 ['inputs','histories'],'all observation epochs over GPS, GLONASS, Galileo and BeiDou, any number of messages per epoch, any interleaving allowed by the standard','Tests check flags or a few cells of recorded data.',
 [G+'rtcm3_sbp.c',G+'rtcm3_utils.c'],[('buffering and sending','send_observations'),('unit conversion','rtcm3_msm_to_sbp / rtcm3_to_sbp')],['SBP callback'])
prop('C17','RTCM ephemerides become SBP ephemerides with the same orbit and clock',
 '''Each supported RTCM ephemeris message yields one SBP ephemeris for the same satellite whose every orbital, clock, group-delay,
 accuracy, health, issue and time element equals the RTCM value in SI units and GPS time.''',
 ['inputs'],'all field values of 1019, 1020, 1042, 1045, 1046','Tests check one captured ephemeris per constellation.',
 [G+'rtcm3_sbp_ephemeris.c'],[('scaling','rtcm3_*_eph_to_sbp')],['SBP callback'])
prop('C18','RTCM SSR corrections become SBP corrections, pairing orbit and clock correctly',
 '''Combined SSR messages yield one SBP orbit-and-clock correction per satellite; separate orbit and clock messages are combined only
 when they agree in constellation, satellite, epoch time and issue, and each emitted correction carries exactly the received values.
 Code and phase biases are passed on per satellite, complete and in order.''',
 ['inputs','histories'],'all SSR message sequences, including orbit/clock messages for different satellites, epochs and issues in any order','Three captures.',
 [G+'rtcm3_sbp_ssr.c'],[('orbit cache and pairing','rtcm3_ssr_*_to_sbp')],['SBP callback'])
prop('C19','RTCM station position, biases, text and wrapped messages reach SBP intact',
 '''Each reference-station position, GLONASS code-phase bias, text and Swift-proprietary message yields the SBP message(s) with the same content,
 under a sender id derived from the station id; log text is forwarded byte for byte, and split only between characters.''',
 ['inputs','histories'],'all values of 1005, 1006, 1033, 1230, 1029 and 4062','Tests check single values.',
 [G+'rtcm3_sbp.c'],[('handlers','rtcm3_1005_to_sbp, rtcm3_1230_to_sbp, rtcm3_1033_to_sbp, send_1029')],['SBP callback'])
prop('C20','Truncated RTCM times resolve to the unique GPS time near the reference',
 '''Given a trusted reference time, the time of an observation, correction or ephemeris carrying only time of week, time of day or a short week
 number is converted to the full GPS week and time of week nearest the reference, across week, day and leap-second boundaries and for each
 constellation\'s time scale.''',
 ['inputs','histories'],'all reference times and all message times within the unambiguous window around them','Tests step a few rollovers.',
 [G+'rtcm3_sbp.c',G+'rtcm3_utils.c',G+'rtcm3_sbp_ephemeris.c'],[('time conversion','compute_gps_time, compute_glo_time, gps_time_sec_match_weeks')],['SBP callback'])
prop('C21','No time-dependent output without trusted time, and trusted time never goes back',
 '''Until a full time is known from an ephemeris, time-dependent RTCM messages yield nothing; messages that need no time pass. The shared time
 reference only moves forward, ignores invalid times, and concurrent updates and reads never observe a time that nobody supplied or that is older than one
 already observed.''',
 ['histories','schedules'],'all message orders, all update sequences and all thread interleavings that occur','Tests are single-threaded and fixed.',
 [G+'time_truth.c',G+'rtcm3_sbp.c'],[('gate','rtcm2sbp_decode_frame'),('compare and swap','time_truth_update')],['SBP callback','time_truth_get'])
prop('C22','Observations survive SBP to RTCM to SBP',
 '''An observation epoch converted from SBP to RTCM MSM (or legacy messages) and back to SBP is the same set of signals at the same time,
 with measurements equal up to the resolution of the RTCM fields; signals the RTCM type cannot carry are dropped, never altered.''',
 ['inputs'],'all SBP observation epochs with physically plausible measurements and every MSM type supported for output','One fixed epoch per mode.',
 [X+'sbp_rtcm3.c',L+'encode.c',G+'rtcm3_utils.c',G+'rtcm3_sbp.c'],[('SBP to MSM','sbp_buffer_to_msm'),('MSM to SBP','rtcm3_msm_to_sbp')],['RTCM output','SBP callback'])
prop('C23','Ephemerides survive SBP to RTCM to SBP',
 '''A GPS, GLONASS, Galileo or BeiDou ephemeris converted from SBP to RTCM and back equals the original element by element up to the resolution of
 the RTCM fields.''',
 ['inputs'],'all ephemerides whose elements fit the RTCM fields','One example per constellation.',
 [X+'sbp_rtcm3_ephemeris.c',L+'eph_encode.c',L+'eph_decode.c',G+'rtcm3_sbp_ephemeris.c'],[('conversion','sbp_to_rtcm3_*_eph')],['RTCM output','SBP callback'])
prop('C24','SBP base position, GLONASS biases, log text and corrections reach RTCM intact',
 '''Each SBP base position, GLONASS bias, log and correction message is output as the RTCM message (antenna position, bias, text, or proprietary wrapper)
 that carries the same values to field resolution and the same sender, and wrapped messages unwrap to the identical SBP message.''',
 ['inputs','histories'],'all field values, lengths and orders','One value each.',
 [X+'sbp_rtcm3.c'],[('callbacks','sbp2rtcm_base_pos_ecef_cb, sbp2rtcm_glo_biases_cb, sbp2rtcm_sbp_log_cb, sbp2rtcm_sbp_osr_cb')],['RTCM output'])
prop('C25','NMEA position, velocity, heading and time sentences state the SBP solution',
 '''The numbers and indicators in GGA, RMC, GLL, VTG, HDT, THS and ZDA equal, to the printed precision, the position, time, speed, course, heading, fix status
 and quality of the SBP messages they were made from, with normalised fields (minutes and seconds below 60, angles in range, correct hemisphere and date
 rollover) and empty fields when there is no fix.''',
 ['inputs'],'all positions, velocities, headings, times and flag values','Recorded lines compared verbatim; only a few times and values.',
 [G+'nmea.c'],[('sentence builders','send_gpgga and siblings')],['NMEA callback'])
prop('C26','NMEA satellite and accuracy sentences state the SBP satellite data',
 '''GSA lists exactly the satellites used, GSV every satellite in view once with its elevation, azimuth and signal strength in correctly numbered groups,
 and GST and PUBX,00 the error statistics and quality values, all equal to the SBP messages they were made from to the printed precision.''',
 ['inputs'],'all satellite sets, constellations, covariance matrices and quality values','One recorded drive.',
 [G+'nmea.c',G+'sbp_nmea.c'],[('sentence builders','send_gsa, send_gsv, send_gpgst, send_pubx')],['NMEA callback'])
prop('C27','NMEA sentences are issued once per epoch, consistent in time, at the set rate',
 '''Each enabled sentence is issued once per solution epoch whose SBP messages arrive (as soon as they have), never twice, only from messages that belong to the same epoch, only at epochs selected by its rate,
 and only from the solution (GNSS-only or fused) that the selected mode calls for.''',
 ['histories','configurations'],'all losses, repetitions and interleavings of SBP messages over several epochs, messages of each kind in time order; all modes and rates','One recorded drive in one mode.',
 [G+'sbp_nmea.c'],[('per-message state and time match','sbp2nmea / check_nmea_rate')],['NMEA callback'])
prop('C28','UBX messages decode and encode per the u-blox layout',
 '''For every supported UBX message, decoding returns exactly the little-endian field values at their documented offsets, rejects a wrong class/id or a payload
 too short for its own counts, and encoding then decoding (and decoding then encoding) is the identity.''',
 ['inputs'],'all field values and repeat counts','A few values per message.',
 ['c/libubx/src/decode.c','c/libubx/src/encode.c'],[('field readers/writers','ubx_decode_*, ubx_encode_*')],['decoded structs','encoded bytes'])
prop('C29','UBX raw measurements become SBP observations with the same measurements',
 '''Each raw-measurement message yields SBP observations for exactly the supported signals, with time, pseudorange, phase, Doppler, C/N0, lock and flags equal to
 the UBX values in SBP units, split over consecutively numbered messages.''',
 ['inputs'],'all measurement sets, signal ids and values','One recorded message.',[G+'ubx_sbp.c'],[('conversion','handle_rxm_rawx')],['SBP callback'])
prop('C30','UBX navigation and status messages become SBP messages with the same values',
 '''Navigation solution, velocity, attitude, satellite, status and hardware-monitor messages yield the SBP messages with the same values in SBP units, and the
 fix mode, validity and time they imply.''',
 ['inputs','histories'],'all field values and message orders','One recorded message each.',[G+'ubx_sbp.c'],[('conversion','handle_nav_*, handle_hnr_*')],['SBP callback'])
prop('C31','UBX sensor messages become SBP inertial and odometry messages of the same value',
 '''Raw inertial and external-sensor messages yield one SBP inertial, wheel-tick or odometry message per complete sample, with values scaled to SBP units,
 signs preserved, and times that follow the sensor time tags.''',
 ['inputs','histories'],'all sensor data words, time tags (including wrap-around) and sequences','Recorded messages.',[G+'ubx_sbp.c'],[('conversion','handle_esf_raw, handle_esf_meas')],['SBP callback'])
prop('C32','UBX navigation subframes become an ephemeris only from one consistent set',
 '''An ephemeris is emitted for a satellite exactly when a complete set of subframes, words or strings with one common issue has been received for it, never from
 mixed or partial sets, and its elements equal those encoded in the subframes; SBAS messages are forwarded only if their parity is right.''',
 ['histories','inputs'],'all orders, losses and issue changes of subframes over several satellites','One recorded set per constellation.',
 [G+'ubx_ephemeris/gps.c',G+'ubx_ephemeris/gal.c',G+'ubx_ephemeris/bds.c',G+'ubx_ephemeris/glo.c',G+'ephemeris/sbas.c',G+'ubx_sbp.c'],[('subframe buffers','*_decode_subframe')],['SBP callback'])
prop('C33','iXCOM messages decode per layout and become SBP messages with the same values',
 '''Every intact iXCOM inertial or wheel message decodes to its field values, re-encodes to the same bytes, and yields the SBP inertial, auxiliary, odometry and
 wheel-tick messages with those values scaled, saturated and time-stamped correctly.''',
 ['inputs','histories'],'all field values and message sequences','Two recorded messages.',[G+'ixcom_sbp.c','c/libixcom/src/decode.c','c/libixcom/src/encode.c'],[('decode/convert','ixcom_decode_*, handle_imuraw, handle_wheeldata')],['SBP callback'])
prop('C34','NovAtel messages parse to exactly the values in their bytes',
 '''For every intact NovAtel binary message of a supported type, with long or short header, the parser reports once, in order, exactly the header and body values that the
 documented little-endian layout and bit fields assign to its bytes, and it skips unsupported ones.''',
 ['inputs'],'all header and body values, record counts and sequences of messages','Only the 2/4/8-byte little-endian readers are tested.',
 [N+'parser/parser.cc',N+'parser/read_little_endian.h',N+'parser/message_rangecmp.cc',N+'parser/binary_header.cc'],[('FromBytes','parser/message_*.cc')],['parser callback'])
prop('C35','NovAtel messages become SBP messages with the same values',
 '''Position, velocity, attitude, inertial, range and ephemeris messages yield the SBP messages that carry the same values in SBP units, with time, solution mode and
 validity flags that match the NovAtel status, and one GPS time message per new epoch.''',
 ['inputs','histories'],'all field values and sequences','No test.',[N+'src/nov2sbp.cc',N+'src/swiftnav_conversion_helpers.cc',N+'src/send_sbp_obs_messages.cc'],[('conversion','convert_*')],['SBP output'])
prop('C36','Converters are deterministic and instances do not influence each other',
 '''The output of a converter instance is a function of its configuration and input bytes only: it does not depend on prior memory contents, on other instances being
 used in between or at the same time in other threads, or on how often a fresh instance has been run before.''',
 ['histories','inputs','schedules'],'all inputs, and all interleavings of two instances in one process, call by call and as threads','Tests run one instance at a time and never compare runs.',
 [G+'ubx_sbp.c',G+'rtcm3_sbp.c',G+'ixcom_sbp.c',G+'sbp_nmea.c',X+'sbp_rtcm3.c',X+'sbp_conv.c'],[('state structs','ubx_sbp_state, rtcm3_sbp_state, ...')],['callbacks'])
prop('C37','Options of the RTCM-to-SBP tool do exactly what they say',
 '''Each command-line option of rtcm3tosbp changes only what its help text names: -b adds the bias to the pseudoranges of exactly the named codes, -c and -l the
linear GLONASS code and phase biases, -G -R -E -C -J -S suppress exactly the named constellation, -w, -d and -s give the time that resolves weeks and days, -o takes
later times from the observations. In a list of biases everything from the first invalid entry on is ignored and nothing else changes. Dates, times and combinations
that are not valid are refused: non-zero exit status, nothing read, nothing written. -h and -t convert nothing, and -t prints the GPS week and time of week of now.''',
 ['configurations','inputs'],'all option strings and combinations and all input streams','No test runs the option parser.',
 ['c/rtcm3tosbp/src/rtcm3tosbp.c',G+'options.c'],[('option parsing','parse_biases, rtcm3tosbp_main'),('biases','msm_glo_fcn_bias, add_obs_to_buffer')],['SBP bytes written','exit code'])
prop('C38','MSM satellite, signal and cell masks are counted and indexed consistently',
 '''For every MSM header, the reported numbers of satellites, signals and cells, and the satellite and signal found at each index, are those of the masks\' set bits in
 order; message numbers map to exactly one constellation and MSM type.''',
 ['inputs'],'all masks and message numbers','One mask.',[L+'msm_utils.c',L+'bits.c'],[('mask counting','msm_get_num_*, find_nth_mask_value, to_constellation')],['return values'])
prop('C39','The command-line tools write exactly what the libraries convert',
 '''rtcm3tosbp, ubx2sbp, ixcom2sbp, sbp2rtcm and nov2sbp read standard input to its end, however it arrives, and write the frames of the messages the converter libraries
produce for those bytes under the given options (sender id, HNR mode), each once, complete and in order, and nothing else; then they end. A write that fails or is cut short ends rtcm3tosbp and
sbp2rtcm with a non-zero exit status and nothing is written behind it; -h converts nothing.''',
 ['inputs','configurations','faults'],'all input streams, splits into reads, options, and the write that fails','The tests call the libraries or compare one file per tool.',
 ['c/rtcm3tosbp/src/rtcm3tosbp.c','c/ubx2sbp/src/ubx2sbp.c','c/ixcom2sbp/src/ixcom2sbp.c','c/sbp2rtcm/src/sbp2rtcm.c','c/nov2sbp/src/nov2sbp.cc',
  'c/rtcm3tosbp/src/rtcm3tosbp_main.c','c/ubx2sbp/src/ubx2sbp_main.c','c/ixcom2sbp/src/ixcom2sbp_main.c','c/sbp2rtcm/src/sbp2rtcm_main.c','c/nov2sbp/src/nov2sbp_main.cc'],
 [('tool loops','*_main'),('SBP output','sbp_message_send')],['standard output','exit status'])
prop('C40','Texts in ST proprietary RTCM messages are exact and stay in the buffer',
 '''For every RTCM 999 firmware version message (subtype 25) the decoder returns the text of the message, terminated, cut to what fits the buffer whose size the caller gave;
for every configuration message (subtype 2) it returns the up to fifteen characters of the configuration text, terminated. A complete RF status message (subtype 24) is accepted with the values it holds. Nothing is written outside the buffer.''',
 ['inputs'],'all texts and buffer sizes','One message of each kind, with a buffer that is larger than the text.',[L+'sta_decode.c'],[('text decoding','sta_decode_fwver, sta_decode_rcc_config, sta_decode_rfstatus')],['return values','caller buffer'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(p) + '\n' for p in P))
print(len(P))
