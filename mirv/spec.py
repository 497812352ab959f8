"""What the parser has to compute, written once and read twice: the contracts evaluate it symbolically
(SymB, z3 terms) to get postconditions, the input search evaluates it on concrete messages (ConcB) to
decide whether the running crate agrees.  Sources: ITU-R M.1371 field layouts, NMEA 0183 field positions,
the crate's public documentation."""

NAV_STATUS = ['UnderWayUsingEngine', 'AtAnchor', 'NotUnderCommand', 'RestrictedManoeuverability', 'ConstrainedByDraught', 'Moored',
              'Aground', 'EngagedInFishing', 'UnderWaySailing', 'Reserved9', 'Reserved10', 'Reserved11', 'Reserved12', 'Reserved13',
              'AisSartIsActive', 'NotDefined']
FIX_TYPE = ['Undefined', 'GPS', 'GLONASS', 'GPSGLONASS', 'LoranC', 'Chayka', 'IntegratedNavigationSystem', 'Surveyed', 'Galileo']
NAV_AID = ['NotSpecified', 'ReferencePoint', 'Racon', 'FixedStructure', 'Reserved4', 'LightWithoutSectors', 'LightWithSectors',
           'LeadingLightFront', 'LeadingLightRear', 'BeaconCardinalNorth', 'BeaconCardinalEast', 'BeaconCardinalSouth', 'BeaconCardinalWest',
           'BeaconLateralPort', 'BeaconLateralStarboard', 'BeaconLateralPreferredChannelPort', 'BeaconLateralPreferredChannelStarboard',
           'BeaconIsolatedDanger', 'BeaconSafeWater', 'BeaconSpecialMark', 'CardinalMarkNorth', 'CardinalMarkEast', 'CardinalMarkSouth',
           'CardinalMarkWest', 'PortHandMark', 'StarboardHandMark', 'PreferredChannelPort', 'PreferredChannelStarboard', 'IsolatedDanger',
           'SafeWater', 'SpecialMark', 'LightVessel']
QUALITY = ['Invalid', 'GpsFix', 'DGpsFix', 'PpsFix', 'RealTimeKinematic', 'RealTimeKinematicFloat', 'DeadReckoning', 'ManualInputMode',
           'SimulationMode']


def _ship():
    r = {}
    for k in range(10, 20): r[k] = 'Reserved1'
    for k in range(20, 30): r[k] = 'WingInGround'
    for k, n in enumerate(['Fishing', 'Towing', 'TowingLong', 'DredgingOrUnderwaterOps', 'DivingOps', 'MilitaryOps', 'Sailing',
                           'PleasureCraft', 'Reserved38', 'Reserved39']): r[30 + k] = n
    for k in range(40, 50): r[k] = 'HighSpeedCraft'
    for k, n in enumerate(['Pilot', 'SearchAndRescue', 'Tug', 'PortTender', 'AntiPollutionEquipment', 'LawEnforcement', 'SpareLocal56',
                           'SpareLocal57', 'MedicalTransport', 'Noncombatant']): r[50 + k] = n
    for a, n in ((60, 'Passenger'), (70, 'Cargo'), (80, 'Tanker'), (90, 'Other')):
        for k in range(10): r[a + k] = n
    return r


def _cargo():
    names = ['Undefined', 'HazardousCategoryA', 'HazardousCategoryB', 'HazardousCategoryC', 'HazardousCategoryD', 'Reserved5', 'Reserved6',
             'Reserved7', 'Reserved8', 'Reserved9']
    return {a + k: names[k] for a in (10, 20, 40, 60, 70, 80, 90) for k in range(10)}


def _seq(l): return {i: n for i, n in enumerate(l)}


# code table: enum -> (codes, everything else)
CODES = {
    'NavigationStatus': (_seq(NAV_STATUS), 'NotDefined'),
    'ShipType': (_ship(), 'NotAvailable'),
    'CargoType': (_cargo(), 'Undefined'),
    'PositionFixType': (_seq(FIX_TYPE), 'Undefined'),
    'GgaQualityIndicator': (_seq(QUALITY), 'Invalid'),
    'NavAidType': (_seq(NAV_AID), None),
}
FAA = {'A': 'Autonomous', 'D': 'Differential', 'E': 'Estimated', 'N': 'NotValid', 'S': 'Simulator'}
TALKERS = {'GN': 'Combination', 'GP': 'Gps', 'GL': 'Glonass', 'GA': 'Galileo', 'BD': 'Beidou', 'GI': 'Navic', 'QZ': 'Qzss'}
STATIONS = {'AB': 'BaseStation', 'AD': 'DependentAisBaseStation', 'AI': 'MobileStation', 'AN': 'AidToNavigationStation',
            'AR': 'AisReceivingStation', 'AS': 'LimitedBaseStation', 'AT': 'AisTransmittingStation', 'AX': 'RepeaterStation'}

LON_NA, LAT_NA = 181 * 600000, 91 * 600000


class Alt:
    """A field whose current value is a recorded defect: ok is what is right, known is what the code gives."""

    def __init__(self, ok, known, finding): self.ok, self.known, self.finding = ok, known, finding


def P(prop, v): return (prop, v)


def lat(B, i): r = B.s(i, 27); return P('C07', B.opt(B.ne(r, LAT_NA), lambda: B.fdiv(B.f(r), 600000.0)))


def lon(B, i): r = B.s(i, 28); return P('C07', B.opt(B.ne(r, LON_NA), lambda: B.fdiv(B.f(r), 600000.0)))


def tenth(B, r, na): return B.opt(B.ne(r, na), lambda: B.fmul(B.f(r), 0.1))


def code(B, ty, r): return P('C23', B.code(ty, r))


def fix0(B, i):
    r = B.u(i, 4)
    return B.opt(B.ne(r, 0), lambda: B.code('PositionFixType', r))


def somestr(B, s): return B.opt(B.nonempty(s), lambda: s)


def dyn(B, **k):
    d = dict(own_vessel=P('C24', B.own), station=P('C24', B.station), nav_status=B.enumv('NavigationStatus', 'NotDefined'), rot=B.none(),
             rot_direction=B.none(), positioning_system_meta=B.none(), current_gnss_position=B.none(), special_manoeuvre=B.none(),
             class_b_unit_flag=B.none(), class_b_display=B.none(), class_b_dsc=B.none(), class_b_band_flag=B.none(),
             class_b_msg22_flag=B.none(), class_b_mode_flag=B.none(), class_b_css_flag=B.none(), radio_status=B.none(), heading_true=B.none())
    d.update(k)
    return 'VesselDynamicData', d


def t123(B):
    rot = B.s(42, 8)
    sec = B.u(137, 6)
    q = lambda: B.fdiv(B.f(rot), 4.733)
    qn = lambda: B.fdiv(B.f(B.neg(rot)), 4.733)
    man = B.u(143, 2)
    E = lambda n: B.enumv('PositioningSystemMeta', n)
    return dyn(B, ais_type=B.enumv('AisClass', 'ClassA'), mmsi=B.u(8, 30), nav_status=code(B, 'NavigationStatus', B.u(38, 4)),
               rot=B.opt(B.and_(B.le(-126, rot), B.le(rot, 126)),
                         lambda: B.ite(B.lt(rot, 0), lambda: B.fneg(B.fsq(qn())), lambda: B.fsq(q()))),
               rot_direction=B.opt(B.ne(rot, -128), lambda: B.ite(B.le(rot, -2), lambda: B.num(-1), lambda: B.ite(B.lt(rot, 2), lambda: B.num(0), lambda: B.num(1)))),
               sog_knots=tenth(B, B.u(50, 10), 1023), high_position_accuracy=B.flag(60), longitude=lon(B, 61), latitude=lat(B, 89),
               cog=tenth(B, B.u(116, 12), 3600), heading_true=B.opt(B.ne(B.u(128, 9), 511), lambda: B.f(B.u(128, 9))),
               timestamp_seconds=sec,
               positioning_system_meta=B.opt(B.ne(sec, 60), lambda: B.cases(sec, {61: E('ManualInputMode'), 62: E('DeadReckoningMode'), 63: E('Inoperative')}, E('Operative'))),
               special_manoeuvre=B.opt(B.or_(B.eq(man, 1), B.eq(man, 2)), lambda: B.eq(man, 2)),
               raim_flag=B.flag(148), radio_status=B.some(B.u(149, 19)))


def t18(B):
    fl = lambda i: B.some(B.flag(i))
    return dyn(B, ais_type=B.enumv('AisClass', 'ClassB'), mmsi=B.u(8, 30), sog_knots=tenth(B, B.u(46, 10), 1023),
               high_position_accuracy=B.flag(56), longitude=lon(B, 57), latitude=lat(B, 85), cog=tenth(B, B.u(112, 12), 3600),
               heading_true=B.opt(B.ne(B.u(124, 9), 511), lambda: B.f(B.u(124, 9))), timestamp_seconds=B.u(133, 6),
               class_b_display=fl(142), class_b_dsc=fl(143), class_b_band_flag=fl(144), class_b_msg22_flag=fl(145), class_b_mode_flag=fl(146),
               raim_flag=B.flag(147), radio_status=B.some(B.u(149, 19)))


def t27(B):
    lo, la, sog, cog = B.s(44, 18), B.s(62, 17), B.u(79, 6), B.u(85, 9)
    klo, kla, ksog, kcog = B.s(62, 17), B.s(44, 18), B.u(62, 6), B.u(62, 17)
    six = lambda r: (lambda: B.fdiv(B.f(r), 600.0))
    return dyn(B, ais_type=B.enumv('AisClass', 'ClassA'), mmsi=B.u(8, 30), nav_status=code(B, 'NavigationStatus', B.u(40, 4)),
               high_position_accuracy=B.flag(38), raim_flag=B.flag(39), timestamp_seconds=B.num(0),
               longitude=Alt(B.opt(B.ne(lo, 108600), six(lo)), B.opt(B.ne(klo, 181000), six(klo)), 't27-longitude'),
               latitude=Alt(B.opt(B.ne(la, 54600), six(la)), B.opt(B.ne(kla, 181000), six(kla)), 't27-latitude'),
               sog_knots=Alt(B.opt(B.ne(sog, 63), lambda: B.f(sog)), B.opt(B.ne(ksog, 63), lambda: B.f(ksog)), 't27-sog'),
               cog=Alt(B.opt(B.ne(cog, 511), lambda: B.f(cog)), B.opt(B.ne(kcog, 91000), lambda: B.fmul(B.f(kcog), 0.1)), 't27-cog'),
               current_gnss_position=Alt(B.some(B.not_(B.flag(94))), B.some(B.not_(B.flag(62))), 't27-gnss'))


def t4(B):
    return 'BaseStationReport', dict(own_vessel=P('C24', B.own), station=P('C24', B.station), mmsi=B.u(8, 30),
        timestamp=B.datetime(B.u(38, 14), B.u(52, 4), B.u(56, 5), B.u(61, 5), B.u(66, 6), B.u(72, 6)),
        high_position_accuracy=B.flag(78), longitude=lon(B, 79), latitude=lat(B, 107), position_fix_type=P('C11+C23', fix0(B, 134)),
        raim_flag=B.flag(148), radio_status=B.u(149, 19))


def t5(B):
    so = B.some
    return 'VesselStaticData', dict(own_vessel=P('C24', B.own), ais_type=B.enumv('AisClass', 'ClassA'), mmsi=B.u(8, 30), ais_version_indicator=B.u(38, 2),
        imo_number=B.opt(B.ne(B.u(40, 30), 0), lambda: B.u(40, 30)), call_sign=somestr(B, B.text(70, 7)), name=somestr(B, B.text(112, 20)),
        ship_type=B.code('ShipType', B.u(232, 8)), cargo_type=B.code('CargoType', B.u(232, 8)), equipment_vendor_id=B.none(),
        equipment_model=B.none(), equipment_serial_number=B.none(), dimension_to_bow=so(B.u(240, 9)), dimension_to_stern=so(B.u(249, 9)),
        dimension_to_port=so(B.u(258, 6)), dimension_to_starboard=so(B.u(264, 6)), position_fix_type=fix0(B, 270),
        eta=P('C13', B.eta(274)), draught10=so(B.u(294, 8)), destination=somestr(B, B.text(302, 20)), mothership_mmsi=B.none())


def t6(B):
    return 'BinaryAddressedMessage', dict(own_vessel=P('C24', B.own), station=P('C24', B.station), mmsi=B.u(8, 30), sequence_number=B.u(38, 2),
        destination_mmsi=B.u(40, 30), retransmit_flag=B.flag(70), dac=B.u(72, 10), fid=B.u(82, 6))


def t9(B):
    return 'StandardSarAircraftPositionReport', dict(own_vessel=P('C24', B.own), station=P('C24', B.station), mmsi=B.u(8, 30),
        altitude=B.opt(B.ne(B.u(38, 12), 4095), lambda: B.u(38, 12)), sog_knots=B.opt(B.ne(B.u(50, 10), 1023), lambda: B.u(50, 10)),
        high_position_accuracy=B.flag(60), longitude=lon(B, 61), latitude=lat(B, 89), cog=tenth(B, B.u(116, 12), 3600),
        timestamp_seconds=B.u(128, 6), regional=B.u(134, 8), dte=B.not_(B.flag(142)), assigned=B.flag(146), raim_flag=B.flag(147),
        radio_status=B.u(148, 20))


def t10(B):
    return 'UtcDateInquiry', dict(own_vessel=P('C24', B.own), station=P('C24', B.station), source_mmsi=B.u(8, 30), destination_mmsi=B.u(40, 30))


def t21(B):
    so = B.some
    return 'AidToNavigationReport', dict(own_vessel=P('C24', B.own), station=P('C24', B.station), mmsi=B.u(8, 30), aid_type=B.code('NavAidType', B.u(38, 5)),
        name=B.cat(B.text(43, 20), B.text(272, 14)), high_position_accuracy=B.flag(163), longitude=lon(B, 164), latitude=lat(B, 192),
        dimension_to_bow=so(B.u(219, 9)), dimension_to_stern=so(B.u(228, 9)), dimension_to_port=so(B.u(237, 6)),
        dimension_to_starboard=so(B.u(243, 6)), position_fix_type=so(B.code('PositionFixType', B.u(249, 4))), timestamp_seconds=B.u(253, 6),
        off_position_indicator=B.flag(259), regional=B.u(260, 8), raim_flag=B.flag(268), virtual_aid_flag=B.flag(269), assigned_mode_flag=B.flag(270))


def t24(B, part):
    """The record of one part (0 = A, 1 = B) before merging."""
    b = part == 1
    so = B.some
    return 'VesselStaticData', dict(own_vessel=P('C24', B.own), ais_type=B.enumv('AisClass', 'ClassB'), mmsi=B.u(8, 30), ais_version_indicator=B.num(0),
        imo_number=B.none(), call_sign=somestr(B, B.text(90, 7)) if b else B.none(), name=B.none() if b else somestr(B, B.text(40, 20)),
        ship_type=B.code('ShipType', B.u(40, 8)) if b else B.enumv('ShipType', 'NotAvailable'),
        cargo_type=B.code('CargoType', B.u(40, 8)) if b else B.enumv('CargoType', 'Undefined'),
        equipment_vendor_id=so(B.text(48, 3)) if b else B.none(), equipment_model=so(B.u(66, 4)) if b else B.none(),
        equipment_serial_number=so(B.u(70, 20)) if b else B.none(),
        dimension_to_bow=so(B.u(132, 9)) if b else B.none(), dimension_to_stern=so(B.u(141, 9)) if b else B.none(),
        dimension_to_port=so(B.u(150, 6)) if b else B.none(), dimension_to_starboard=so(B.u(156, 6)) if b else B.none(),
        position_fix_type=B.none(), eta=B.none(), draught10=B.none(), destination=B.none(), mothership_mmsi=so(B.u(132, 30)) if b else B.none())


AIS = {'vdm_t1t2t3': (t123, 'C08', 'VesselDynamicData'), 'vdm_t18': (t18, 'C09', 'VesselDynamicData'), 'vdm_t27': (t27, 'C10', 'VesselDynamicData'),
       'vdm_t4': (t4, 'C11', 'BaseStationReport'), 'vdm_t5': (t5, 'C12', 'VesselStaticData'), 'vdm_t6': (t6, 'C15', 'BinaryAddressedMessage'),
       'vdm_t9': (t9, 'C09', 'StandardSarAircraftPositionReport'), 'vdm_t10': (t10, 'C15', 'UtcDateInquiry'), 'vdm_t21': (t21, 'C14', 'AidToNavigationReport')}
AIS_BY_TYPE = {1: 'vdm_t1t2t3', 2: 'vdm_t1t2t3', 3: 'vdm_t1t2t3', 4: 'vdm_t4', 5: 'vdm_t5', 6: 'vdm_t6', 9: 'vdm_t9', 10: 'vdm_t10', 18: 'vdm_t18',
               19: 'vdm_t19', 21: 'vdm_t21', 24: 'vdm_t24', 27: 'vdm_t27'}


# ---- GNSS: field positions
def gga(B):
    n = B.num_field
    return 'GgaData', 'Gga', dict(source=P('C03', B.nav), timestamp=P('C21', B.hhmmss(1)), latitude=P('C20', B.latitude(2, 3)), longitude=P('C20', B.longitude(4, 5)),
        quality=B.or_default(n(6, 'u8'), 0, 'GgaQualityIndicator'), satellite_count=n(7, 'u8'), hdop=n(8, 'f64'), altitude=n(9, 'f64'),
        geoid_separation=n(11, 'f64'), age_of_dgps=n(13, 'f64'), ref_station_id=n(14, 'u16'))


def rmc(B):
    n = B.num_field
    return 'RmcData', 'Rmc', dict(source=P('C03', B.nav), timestamp=P('C21', B.date_time(9, 1)), status_active=B.flagchar(2, {'A': True, 'V': False}),
        latitude=P('C20', B.latitude(3, 4)), longitude=P('C20', B.longitude(5, 6)), sog_knots=n(7, 'f64'), bearing=n(8, 'f64'),
        variation=B.signed(10, 11))


def gsa(B):
    n = B.num_field
    return 'GsaData', 'Gsa', dict(source=P('C03', B.nav), mode1_automatic=B.flagchar(1, {'M': False, 'A': True}),
        mode2_3d=B.flagchar(2, {'1': ('GsaFixMode', 'NotAvailable'), '2': ('GsaFixMode', 'Fix2D'), '3': ('GsaFixMode', 'Fix3D')}),
        prn_numbers=B.prns(3, 15), pdop=n(15, 'f64'), hdop=n(16, 'f64'), vdop=n(17, 'f64'))


def vtg(B):
    n = B.soft_num
    return 'VtgData', 'Vtg', dict(source=P('C03', B.nav), cog_true=n(1, 'f64'), cog_magnetic=n(3, 'f64'), sog_knots=n(5, 'f64'), sog_kph=n(7, 'f64'),
        faa_mode=P('C19+C23', B.faa(9)))


def gll(B):
    return 'GllData', 'Gll', dict(source=P('C03', B.nav), latitude=P('C20', B.latitude(1, 2)), longitude=P('C20', B.longitude(3, 4)),
        timestamp=P('C21', B.hhmmss(5)), data_valid=B.softchar(6, {'A': True, 'V': False}), faa_mode=P('C19+C23', B.faa(7)))


GNSS = {'gga': gga, 'rmc': rmc, 'gsa': gsa, 'vtg': vtg, 'gll': gll}
