#!/bin/bash
# Validates the shim libraries by building and running the repository's own
# (otherwise unbuildable) check tests on them.  Development aid, not a check.
export ASAN_OPTIONS=detect_leaks=0
R=${R:-/repo}/c; S=$(cd $(dirname $0)/.. && pwd); B=$(mktemp -d /tmp/shimval.XXXX); cd $B
INC="-I$S/include -I$S/validate/include -I$R/librtcm/include -I$R/librtcm/src -I$R/libubx/include -I$R/libixcom/include -I$R/gnss_converters/include -I$R/gnss_converters/src -I$R/gnss_converters/src/ubx_ephemeris -I$R/gnss_converters_extra/include -I$R/gnss_converters_extra/src"
SAN=${SAN:--fsanitize=address,bounds}
for f in $S/src/*.c $(find $R/librtcm/src $R/libubx/src $R/libixcom/src $R/gnss_converters/src $R/gnss_converters_extra/src -name '*.c'); do
 o=$(echo $f | tr / _).o; gcc -std=gnu11 -w -D_GNU_SOURCE -g -O1 $SAN $INC -c $f -o $o & done; wait
ar rcs liball.a *.o
t() { d=$1; shift; mkdir -p $B/c_$d; echo "#define RELATIVE_PATH_PREFIX \"$R/$d/test\"" > $B/c_$d/config.h
 echo "== $d"; (cd $R/$d/test; gcc -std=gnu11 -w -D_GNU_SOURCE -g -O1 $SAN $INC -I$B/c_$d -I$R/$d/src "$@" $B/liball.a -lm -lpthread -o $B/t_$d) && (cd $R/$d/test; $B/t_$d 2>&1 | tail -4000); }
t librtcm rtcm_decoder_tests.c
t librtcm sta_rtcm3_tests.c
t libubx check_main.c check_ubx.c
t libixcom check_main.c check_ixcom.c
t gnss_converters check_gnss_converters_main.c check_nmea.c check_nmea_gpths.c check_options.c check_time_truth.c
t gnss_converters_extra check_utils.c
t rtcm3tosbp check_rtcm3_main.c check_rtcm3.c check_rtcm3_ssr.c check_rtcm3_time.c
t ubx2sbp check_ubx2sbp.c
t ixcom2sbp check_ixcom2sbp.c
[ -n "$KEEP" ] && echo $B || rm -rf $B
