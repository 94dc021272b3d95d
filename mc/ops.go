package main

// The decoding entry points, by name, for the checks which are about all of them (C23, C24, C25, C27), and the snapshot
// of whatever they return: all data reachable from it, and every text and accessor.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	aid "github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	aos "github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	ast "github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	tss "github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/bitutils"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/common"
	"github.com/twuillemin/modes/pkg/geo"
	mcommon "github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

type callFn func(d []byte, a []float64) (interface{}, error)

type op struct {
	name string
	n    int // length of the accepted content; 0: frames of 7 and 14 bytes
	args int
	call callFn
}

type parityResult struct {
	Frame   messages.ModeSMessage
	Address mcommon.ICAOAddress
	Error   string
}

type position struct{ Latitude, Longitude float64 }

func pb(f func(d []byte) (interface{}, error)) callFn {
	return func(d []byte, _ []float64) (interface{}, error) { return f(d) }
}

func parse(df byte, f func(m mcommon.MessageData) (interface{}, error)) op {
	return op{fmt.Sprintf("ParseDF%d", df), frameLen(int(df)), 0, pb(func(d []byte) (interface{}, error) {
		// payload and parity are cut as far as there are bytes for them
		m := mcommon.MessageData{DownLinkFormat: df}
		if len(d) > 0 {
			m.FirstField = d[0] & 7
			d = d[1:]
		}
		k := len(d) - 3
		if k < 0 {
			k = 0
		}
		m.Payload, m.Parity = d[:k:k], d[k:]
		return f(m)
	})}
}

var allOps []op
var opByName = map[string]*op{}

func u17(f float64) uint32 { return uint32(int64(f)) }

func init() {
	bits := func(d []byte, i int) bool { return d[i>>3]&(0x80>>uint(i&7)) != 0 }
	allOps = []op{
		{"ReadMessage", 0, 0, pb(func(d []byte) (interface{}, error) { return modesreader.ReadMessage(d) })},
		{"CheckCRC", 0, 2, func(d []byte, a []float64) (interface{}, error) {
			m, err := modesreader.ReadMessage(d)
			if err != nil {
				return nil, err
			}
			id := uint32(0)
			if len(d) > 6 {
				id = remainder(d)
			}
			ad, err := modesreader.CheckCRC(m, d, listsFor(int(a[0]), id), listsFor(int(a[1]), id))
			r := &parityResult{Frame: m, Address: ad}
			if err != nil {
				r.Error = err.Error()
			}
			return r, nil
		}},
		{"ReadADSBMessage", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return adsbreader.ReadADSBMessage(adsbVersion(a[0]), a[1] != 0, a[2] != 0, d)
		}},
		{"ReadCommBMessage", 7, 0, pb(func(d []byte) (interface{}, error) { return commb.ReadCommBMessage(d) })},
		{"ReadResolutionAdvisory", 6, 0, pb(func(d []byte) (interface{}, error) { return ra.ReadResolutionAdvisory(d) })},
		{"adsb.ReadAirbornePosition", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return airborne_position.ReadAirbornePosition(adsbVersion(a[0]), d, a[1] != 0)
		}},
		{"adsb.ReadAirbornePositionType0", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return airborne_position.ReadAirbornePositionType0(adsbVersion(a[0]), d)
		}},
		{"adsb.ReadAirbornePositionV0", 7, 0, pb(func(d []byte) (interface{}, error) { return airborne_position.ReadAirbornePositionV0(d) })},
		{"adsb.ReadAirbornePositionV1", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return airborne_position.ReadAirbornePositionV1(d, a[1] != 0)
		}},
		{"adsb.ReadAirbornePositionV2", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return airborne_position.ReadAirbornePositionV2(d, a[1] != 0)
		}},
		{"adsb.ReadSurfacePosition", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return surface_position.ReadSurfacePosition(adsbVersion(a[0]), d, a[1] != 0, a[2] != 0)
		}},
		{"adsb.ReadSurfacePositionV0", 7, 0, pb(func(d []byte) (interface{}, error) { return surface_position.ReadSurfacePositionV0(d) })},
		{"adsb.ReadSurfacePositionV1", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return surface_position.ReadSurfacePositionV1(d, a[1] != 0)
		}},
		{"adsb.ReadSurfacePositionV2", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return surface_position.ReadSurfacePositionV2(d, a[1] != 0, a[2] != 0)
		}},
		{"adsb.ReadAirborneVelocity", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return airborne_velocity.ReadAirborneVelocity(adsbVersion(a[0]), d)
		}},
		{"adsb.ReadAircraftIdentificationAndCategory", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return aid.ReadAircraftIdentificationAndCategory(adsbVersion(a[0]), d)
		}},
		{"adsb.ReadAircraftStatus", 7, 3, func(d []byte, a []float64) (interface{}, error) { return ast.ReadAircraftStatus(adsbVersion(a[0]), d) }},
		{"adsb.ReadTargetStateAndStatus", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return tss.ReadTargetStateAndStatus(adsbVersion(a[0]), d)
		}},
		{"adsb.ReadAircraftOperationalStatus", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return aos.ReadAircraftOperationalStatus(adsbVersion(a[0]), d)
		}},
		{"adsb.ReadNoPositionInformation", 7, 3, func(d []byte, a []float64) (interface{}, error) {
			return no_position_information.ReadNoPositionInformation(adsbVersion(a[0]), d)
		}},
		{"bds00", 7, 0, pb(func(d []byte) (interface{}, error) { return bds00.ReadNoMessageAvailable(d) })},
		{"bds05", 7, 0, pb(func(d []byte) (interface{}, error) { return bds05.ReadAirbornePosition(d) })},
		{"bds06", 7, 0, pb(func(d []byte) (interface{}, error) { return bds06.ReadSurfacePosition(d) })},
		{"bds07", 7, 0, pb(func(d []byte) (interface{}, error) { return bds07.ReadStatus(d) })},
		{"bds08", 7, 0, pb(func(d []byte) (interface{}, error) { return bds08.ReadAircraftIdentificationAndCategory(d) })},
		{"bds09", 7, 0, pb(func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocity(d) })},
		{"bds09-1", 7, 0, pb(func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityGroundSpeedNormal(d) })},
		{"bds09-2", 7, 0, pb(func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityGroundSpeedSupersonic(d) })},
		{"bds09-3", 7, 0, pb(func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityAirSpeedNormal(d) })},
		{"bds09-4", 7, 0, pb(func(d []byte) (interface{}, error) { return bds09.ReadAirborneVelocityAirSpeedSupersonic(d) })},
		{"bds10", 7, 0, pb(func(d []byte) (interface{}, error) { return bds10.ReadDataLinkCapabilityReport(d) })},
		{"bds17", 7, 0, pb(func(d []byte) (interface{}, error) { return bds17.ReadCommonUsageGICBCapabilityReport(d) })},
		{"bds20", 7, 0, pb(func(d []byte) (interface{}, error) { return bds20.ReadAircraftIdentification(d) })},
		{"bds30", 7, 0, pb(func(d []byte) (interface{}, error) { return bds30.ReadACASResolutionAdvisory(d) })},
		{"bds40", 7, 0, pb(func(d []byte) (interface{}, error) { return bds40.ReadSelectedVerticalIntention(d) })},
		{"bds44", 7, 0, pb(func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReport(d) })},
		{"bds44-0", 7, 0, pb(func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV0(d) })},
		{"bds44-1", 7, 0, pb(func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV1(d) })},
		{"bds44-2", 7, 0, pb(func(d []byte) (interface{}, error) { return bds44.ReadMeteorologicalRoutineAirReportV2(d) })},
		{"bds45", 7, 0, pb(func(d []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReport(d) })},
		{"bds45-0", 7, 0, pb(func(d []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReportV0(d) })},
		{"bds45-1", 7, 0, pb(func(d []byte) (interface{}, error) { return bds45.ReadMeteorologicalHazardReportV1(d) })},
		{"bds50", 7, 0, pb(func(d []byte) (interface{}, error) { return bds50.ReadTrackAndTurnReport(d) })},
		{"bds60", 7, 0, pb(func(d []byte) (interface{}, error) { return bds60.ReadHeadingAndSpeedReport(d) })},
		{"bds61", 7, 0, pb(func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatus(d) })},
		{"bds61-0", 7, 0, pb(func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatusNoInformation(d) })},
		{"bds61-1", 7, 0, pb(func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatusEmergency(d) })},
		{"bds61-2", 7, 0, pb(func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatusACAS(d) })},
		{"bds62", 7, 0, pb(func(d []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus(d) })},
		{"bds62-0", 7, 0, pb(func(d []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus0(d) })},
		{"bds62-1", 7, 0, pb(func(d []byte) (interface{}, error) { return bds62.ReadTargetStateAndStatus1(d) })},
		{"bds65", 7, 0, pb(func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatus(d) })},
		{"bds65-0", 7, 0, pb(func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusADSB0(d) })},
		{"bds65-a1", 7, 0, pb(func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB1(d) })},
		{"bds65-a2", 7, 0, pb(func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB2(d) })},
		{"bds65-s1", 7, 0, pb(func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB1(d) })},
		{"bds65-s2", 7, 0, pb(func(d []byte) (interface{}, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB2(d) })},
		parse(0, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF0(m) }),
		parse(4, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF4(m) }),
		parse(5, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF5(m) }),
		parse(11, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF11(m) }),
		parse(16, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF16(m) }),
		parse(17, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF17(m) }),
		parse(18, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF18(m) }),
		parse(19, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF19(m) }),
		parse(20, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF20(m) }),
		parse(21, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF21(m) }),
		parse(24, func(m mcommon.MessageData) (interface{}, error) { return messages.ParseDF24(m) }),
		{"gillham", 2, 0, pb(func(d []byte) (interface{}, error) {
			if len(d) < 2 {
				return nil, fmt.Errorf("short")
			}
			b := func(i int) bool { return bits(d, i+3) }
			return bitutils.GillhamToAltitude(b(1), b(2), b(3), b(4), b(5), b(6), b(7), b(8), b(9), b(10), b(11), b(12))
		})},
		{"PrefixMultiLine", 4, 0, pb(func(d []byte) (interface{}, error) {
			return common.PrefixMultiLine(strings.ReplaceAll(string(d), "\x00", "\n"), "  "), nil
		})},
		{"geo.airborne-global", -1, 5, func(_ []byte, a []float64) (interface{}, error) {
			la, lo, err := geo.GetCPRAirborneGlobalPosition(u17(a[0]), u17(a[1]), u17(a[2]), u17(a[3]), a[4] != 0)
			return &position{la, lo}, err
		}},
		{"geo.airborne-local", -1, 5, func(_ []byte, a []float64) (interface{}, error) {
			la, lo := geo.GetCPRAirborneLocalPosition(u17(a[0]), u17(a[1]), a[2], a[3], a[4] != 0)
			return &position{la, lo}, nil
		}},
		{"geo.surface-local", -1, 5, func(_ []byte, a []float64) (interface{}, error) {
			la, lo := geo.GetCPRSurfaceLocalPosition(u17(a[0]), u17(a[1]), a[2], a[3], a[4] != 0)
			return &position{la, lo}, nil
		}},
		{"geo.surface-global", -1, 7, func(_ []byte, a []float64) (interface{}, error) {
			la, lo, err := geo.GetCPRSurfaceGlobalPosition(u17(a[0]), u17(a[1]), u17(a[2]), u17(a[3]), a[4] != 0, a[5], a[6])
			return &position{la, lo}, err
		}},
		{"geo.distance", -1, 4, func(_ []byte, a []float64) (interface{}, error) {
			return geo.ComputeGroundDistance(a[0], a[1], a[2], a[3]), nil
		}},
	}
	for i := range allOps {
		opByName[allOps[i].name] = &allOps[i]
	}
	_ = adsb.ADSBV0
}

// argSets are the argument vectors an operation is explored with.
func (o *op) argSets() [][]float64 {
	switch o.args {
	case 2:
		return [][]float64{{0, 0}, {2, 2}, {3, 3}}
	case 3:
		return allLevels()
	}
	return [][]float64{nil}
}

// snapshot renders everything reachable from the value: unexported data too, and the result of every niladic method.
func snapshot(x interface{}, err error) string {
	var sb strings.Builder
	if err != nil {
		sb.WriteString("error: " + err.Error() + "\n")
	}
	dump(&sb, reflect.ValueOf(x), 0, true)
	return sb.String()
}

func dump(sb *strings.Builder, v reflect.Value, depth int, methods bool) {
	if depth > 12 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if methods && v.CanInterface() {
		callAll(sb, v, depth)
	}
	dumpIn(sb, v, depth, methods)
}

// dumpIn renders the value itself, and with methods what those of its parts give.
func dumpIn(sb *strings.Builder, v reflect.Value, depth int, methods bool) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		if v.Kind() == reflect.Ptr && depth < 12 {
			// methods of the pointed value are those of the pointer, already called
			dumpIn(sb, v.Elem(), depth+1, methods)
		} else {
			dump(sb, v.Elem(), depth+1, methods)
		}
	case reflect.Struct:
		t := v.Type()
		sb.WriteString(t.Name() + "{")
		for i := 0; i < t.NumField(); i++ {
			if n := t.Field(i).Name; skipViews && (n == "Payload" || n == "Parity") {
				continue
			}
			sb.WriteString(t.Field(i).Name + ":")
			dump(sb, v.Field(i), depth+1, methods)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(sb, "%02x", v.Index(i).Uint())
			}
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i), depth+1, methods)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, fmt.Sprintf("%v=%v", k, v.MapIndex(k)))
		}
		sort.Strings(ks)
		fmt.Fprint(sb, ks)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString(v.Kind().String())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if math.IsNaN(f) {
			sb.WriteString("NaN")
			return
		}
		fmt.Fprintf(sb, "%v", f)
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%d", v.Uint())
	default:
		sb.WriteString(v.Kind().String())
	}
}

type methodRef struct {
	idx  int
	name string
}

var niladic = map[reflect.Type][]methodRef{}

// callAll calls every method without arguments and renders what it gives.
func callAll(sb *strings.Builder, v reflect.Value, depth int) {
	if v.Kind() == reflect.Interface {
		return // the dynamic value comes next
	}
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return
	}
	t := v.Type()
	if t.PkgPath() == "" && (t.Kind() != reflect.Ptr || t.Elem().PkgPath() == "") {
		return
	}
	ms, ok := niladic[t]
	if !ok {
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.Type.NumIn() == 1 && m.Type.NumOut() > 0 {
				ms = append(ms, methodRef{i, m.Name})
			}
		}
		niladic[t] = ms
	}
	for _, m := range ms {
		out := v.Method(m.idx).Call(nil)
		sb.WriteString("\n" + strings.Repeat(" ", depth) + m.name + "()=")
		for _, o := range out {
			if o.Type() == errorType && !o.IsNil() {
				sb.WriteString("error " + o.Interface().(error).Error())
				continue
			}
			dump(sb, o, depth+2, depth < 4 && o.Type() != t && !strings.HasPrefix(m.name, "Error"))
			sb.WriteString(",")
		}
	}
	if len(ms) > 0 {
		sb.WriteString("\n")
	}
}
