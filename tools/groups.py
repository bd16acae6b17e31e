"""Which harness and which part of /repo each property is built from."""
GROUPS = {
    'rtcm': {'harness': ['rtcm_codec.cc'], 'repo': ['librtcm/src']},
    'nov': {'harness': ['nov.cc'], 'repo': ['nov2sbp/parser', 'nov2sbp/src'], 'redef': ['fprintf=quiet_fprintf']},
    'ubx': {'harness': ['ubx_codec.cc'], 'repo': ['libubx/src']},
    'ixcom': {'harness': ['ixcom.cc'], 'repo': ['libixcom/src', 'gnss_converters/src/ixcom_sbp.c'], 'alt': True},
}
GROUPS['ubxsbp'] = {'harness': ['ubx.cc'],
                    'repo': ['libubx/src', 'gnss_converters/src/ubx_sbp.c', 'gnss_converters/src/common.c',
                             'gnss_converters/src/ubx_ephemeris', 'gnss_converters/src/ephemeris'],
                    'alt': True}
GROUPS['rtcm3sbp'] = {'harness': ['rtcm3sbp.cc'],
                      'repo': ['librtcm/src', 'gnss_converters/src/rtcm3_sbp.c', 'gnss_converters/src/rtcm3_sbp_ephemeris.c',
                               'gnss_converters/src/rtcm3_sbp_ssr.c', 'gnss_converters/src/rtcm3_utils.c',
                               'gnss_converters/src/time_truth.c', 'gnss_converters/src/options.c',
                               'gnss_converters/src/common.c', 'gnss_converters/src/ephemeris'],
                      'alt': True}
GROUPS['nmea'] = {'harness': ['nmea.cc'],
                  'repo': ['gnss_converters/src/nmea.c', 'gnss_converters/src/sbp_nmea.c'], 'alt': True}
GROUPS['out'] = {'harness': ['out.cc'],
                 'repo': GROUPS['rtcm3sbp']['repo'] + ['gnss_converters_extra/src'], 'alt': True}
for _g in ('ixcom', 'ubxsbp', 'rtcm3sbp', 'nmea', 'out'):
    GROUPS[_g]['sched'] = True
# the command-line tools, with main() and its system calls renamed
_CLI = ['main=tool_main', 'read=tool_read', 'write=tool_write', 'exit=tool_exit', 'time=tool_time', 'printf=tool_printf',
        'fprintf=tool_fprintf', 'feof=tool_feof', 'fread=tool_fread', 'fwrite=tool_fwrite']
for _t, _of, _src in (('t_rtcm', 'rtcm3sbp', 'rtcm3tosbp/src'), ('t_ubx', 'ubxsbp', 'ubx2sbp/src'),
                      ('t_ixcom', 'ixcom', 'ixcom2sbp/src'), ('t_out', 'out', 'sbp2rtcm/src')):
    GROUPS[_t] = {'harness': ['tools.cc'], 'repo': GROUPS[_of]['repo'] + [_src, _src + '/' + _src.split('/')[0] + '_main.c'],
                  'alt': True, 'redef': _CLI}
GROUPS['t_nov'] = {'harness': ['tools.cc'], 'repo': GROUPS['nov']['repo'] + ['nov2sbp/src/nov2sbp_main.cc'],
                   'redef': _CLI}
PROPS = {}


def use(group, ids):
    for p in ids.split():
        PROPS.setdefault(p, []).append(group)


use('rtcm', 'C10 C11 C12 C13 C14 C15 C38 C40')
use('nov', 'C04 C08 C09 C34 C35 C36')
use('ubx', 'C28')
use('ixcom', 'C03 C08 C09 C33 C36')
use('ubxsbp', 'C02 C08 C09 C29 C30 C31 C32 C36')
use('rtcm3sbp', 'C01 C07 C09 C16 C17 C18 C19 C20 C21 C36')
use('nmea', 'C06 C25 C26 C27 C36')
use('out', 'C05 C22 C23 C24 C36')
use('t_rtcm', 'C37')
for _t in ('t_rtcm', 't_ubx', 't_ixcom', 't_out', 't_nov'):
    use(_t, 'C39')
TECH = {}
for _p in 'C01 C02 C03 C04 C05 C06'.split():
    TECH[_p] = 'coverage-guided property-based fuzzing of hostile streams under sanitizers, with well-formedness and termination oracles'
for _p in 'C07 C08 C09'.split():
    TECH[_p] = 'property-based testing: metamorphic relation between streams (damage, garbage, splitting into reads)'
for _p in 'C36 C39'.split():
    TECH[_p] = 'property-based testing: differential run against a second copy of the library with other memory contents and independent drivers'
for _p in 'C16 C17 C18 C19 C20 C21 C25 C26 C27 C29 C30 C31 C32 C33 C35'.split():
    TECH[_p] = 'stateful model-based property testing: generated message histories against a reference model of the conversion'
for _p in 'C10 C11 C12 C13 C14 C15 C28 C34 C38 C40'.split():
    TECH[_p] = 'property-based testing: generated raw field values against reference bit layouts, round trips, truncations'
for _p in 'C22 C23 C24'.split():
    TECH[_p] = 'stateful model-based property testing with a reference model of the frames and the round trip back through the other converter'
TECH['C37'] = 'property-based testing: generated option strings and streams, differential against the library under independently parsed options'
NOT_APPLICABLE = {}
