%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
#[verifier::external_body] /*discharged: its precondition (never called)*/
pub fn unreachable_panic() -> ! requires false, { panic!() }
/// documented codes of GpsFix, all others reserved
pub open spec fn GpsFix_of(x: u8) -> GpsFix {
    match x { 0u8 => GpsFix::NoFix, 1u8 => GpsFix::DeadReckoningOnly, 2u8 => GpsFix::Fix2D, 3u8 => GpsFix::Fix3D, 4u8 => GpsFix::GPSPlusDeadReckoning, 5u8 => GpsFix::TimeOnlyFix, 6u8 => GpsFix::Reserved6, 7u8 => GpsFix::Reserved7, 8u8 => GpsFix::Reserved8, 9u8 => GpsFix::Reserved9, 10u8 => GpsFix::Reserved10, 11u8 => GpsFix::Reserved11, 12u8 => GpsFix::Reserved12, 13u8 => GpsFix::Reserved13, 14u8 => GpsFix::Reserved14, 15u8 => GpsFix::Reserved15, 16u8 => GpsFix::Reserved16, 17u8 => GpsFix::Reserved17, 18u8 => GpsFix::Reserved18, 19u8 => GpsFix::Reserved19, 20u8 => GpsFix::Reserved20, 21u8 => GpsFix::Reserved21, 22u8 => GpsFix::Reserved22, 23u8 => GpsFix::Reserved23, 24u8 => GpsFix::Reserved24, 25u8 => GpsFix::Reserved25, 26u8 => GpsFix::Reserved26, 27u8 => GpsFix::Reserved27, 28u8 => GpsFix::Reserved28, 29u8 => GpsFix::Reserved29, 30u8 => GpsFix::Reserved30, 31u8 => GpsFix::Reserved31, 32u8 => GpsFix::Reserved32, 33u8 => GpsFix::Reserved33, 34u8 => GpsFix::Reserved34, 35u8 => GpsFix::Reserved35, 36u8 => GpsFix::Reserved36, 37u8 => GpsFix::Reserved37, 38u8 => GpsFix::Reserved38, 39u8 => GpsFix::Reserved39, 40u8 => GpsFix::Reserved40, 41u8 => GpsFix::Reserved41, 42u8 => GpsFix::Reserved42, 43u8 => GpsFix::Reserved43, 44u8 => GpsFix::Reserved44, 45u8 => GpsFix::Reserved45, 46u8 => GpsFix::Reserved46, 47u8 => GpsFix::Reserved47, 48u8 => GpsFix::Reserved48, 49u8 => GpsFix::Reserved49, 50u8 => GpsFix::Reserved50, 51u8 => GpsFix::Reserved51, 52u8 => GpsFix::Reserved52, 53u8 => GpsFix::Reserved53, 54u8 => GpsFix::Reserved54, 55u8 => GpsFix::Reserved55, 56u8 => GpsFix::Reserved56, 57u8 => GpsFix::Reserved57, 58u8 => GpsFix::Reserved58, 59u8 => GpsFix::Reserved59, 60u8 => GpsFix::Reserved60, 61u8 => GpsFix::Reserved61, 62u8 => GpsFix::Reserved62, 63u8 => GpsFix::Reserved63, 64u8 => GpsFix::Reserved64, 65u8 => GpsFix::Reserved65, 66u8 => GpsFix::Reserved66, 67u8 => GpsFix::Reserved67, 68u8 => GpsFix::Reserved68, 69u8 => GpsFix::Reserved69, 70u8 => GpsFix::Reserved70, 71u8 => GpsFix::Reserved71, 72u8 => GpsFix::Reserved72, 73u8 => GpsFix::Reserved73, 74u8 => GpsFix::Reserved74, 75u8 => GpsFix::Reserved75, 76u8 => GpsFix::Reserved76, 77u8 => GpsFix::Reserved77, 78u8 => GpsFix::Reserved78, 79u8 => GpsFix::Reserved79, 80u8 => GpsFix::Reserved80, 81u8 => GpsFix::Reserved81, 82u8 => GpsFix::Reserved82, 83u8 => GpsFix::Reserved83, 84u8 => GpsFix::Reserved84, 85u8 => GpsFix::Reserved85, 86u8 => GpsFix::Reserved86, 87u8 => GpsFix::Reserved87, 88u8 => GpsFix::Reserved88, 89u8 => GpsFix::Reserved89, 90u8 => GpsFix::Reserved90, 91u8 => GpsFix::Reserved91, 92u8 => GpsFix::Reserved92, 93u8 => GpsFix::Reserved93, 94u8 => GpsFix::Reserved94, 95u8 => GpsFix::Reserved95, 96u8 => GpsFix::Reserved96, 97u8 => GpsFix::Reserved97, 98u8 => GpsFix::Reserved98, 99u8 => GpsFix::Reserved99, 100u8 => GpsFix::Reserved100, 101u8 => GpsFix::Reserved101, 102u8 => GpsFix::Reserved102, 103u8 => GpsFix::Reserved103, 104u8 => GpsFix::Reserved104, 105u8 => GpsFix::Reserved105, 106u8 => GpsFix::Reserved106, 107u8 => GpsFix::Reserved107, 108u8 => GpsFix::Reserved108, 109u8 => GpsFix::Reserved109, 110u8 => GpsFix::Reserved110, 111u8 => GpsFix::Reserved111, 112u8 => GpsFix::Reserved112, 113u8 => GpsFix::Reserved113, 114u8 => GpsFix::Reserved114, 115u8 => GpsFix::Reserved115, 116u8 => GpsFix::Reserved116, 117u8 => GpsFix::Reserved117, 118u8 => GpsFix::Reserved118, 119u8 => GpsFix::Reserved119, 120u8 => GpsFix::Reserved120, 121u8 => GpsFix::Reserved121, 122u8 => GpsFix::Reserved122, 123u8 => GpsFix::Reserved123, 124u8 => GpsFix::Reserved124, 125u8 => GpsFix::Reserved125, 126u8 => GpsFix::Reserved126, 127u8 => GpsFix::Reserved127, 128u8 => GpsFix::Reserved128, 129u8 => GpsFix::Reserved129, 130u8 => GpsFix::Reserved130, 131u8 => GpsFix::Reserved131, 132u8 => GpsFix::Reserved132, 133u8 => GpsFix::Reserved133, 134u8 => GpsFix::Reserved134, 135u8 => GpsFix::Reserved135, 136u8 => GpsFix::Reserved136, 137u8 => GpsFix::Reserved137, 138u8 => GpsFix::Reserved138, 139u8 => GpsFix::Reserved139, 140u8 => GpsFix::Reserved140, 141u8 => GpsFix::Reserved141, 142u8 => GpsFix::Reserved142, 143u8 => GpsFix::Reserved143, 144u8 => GpsFix::Reserved144, 145u8 => GpsFix::Reserved145, 146u8 => GpsFix::Reserved146, 147u8 => GpsFix::Reserved147, 148u8 => GpsFix::Reserved148, 149u8 => GpsFix::Reserved149, 150u8 => GpsFix::Reserved150, 151u8 => GpsFix::Reserved151, 152u8 => GpsFix::Reserved152, 153u8 => GpsFix::Reserved153, 154u8 => GpsFix::Reserved154, 155u8 => GpsFix::Reserved155, 156u8 => GpsFix::Reserved156, 157u8 => GpsFix::Reserved157, 158u8 => GpsFix::Reserved158, 159u8 => GpsFix::Reserved159, 160u8 => GpsFix::Reserved160, 161u8 => GpsFix::Reserved161, 162u8 => GpsFix::Reserved162, 163u8 => GpsFix::Reserved163, 164u8 => GpsFix::Reserved164, 165u8 => GpsFix::Reserved165, 166u8 => GpsFix::Reserved166, 167u8 => GpsFix::Reserved167, 168u8 => GpsFix::Reserved168, 169u8 => GpsFix::Reserved169, 170u8 => GpsFix::Reserved170, 171u8 => GpsFix::Reserved171, 172u8 => GpsFix::Reserved172, 173u8 => GpsFix::Reserved173, 174u8 => GpsFix::Reserved174, 175u8 => GpsFix::Reserved175, 176u8 => GpsFix::Reserved176, 177u8 => GpsFix::Reserved177, 178u8 => GpsFix::Reserved178, 179u8 => GpsFix::Reserved179, 180u8 => GpsFix::Reserved180, 181u8 => GpsFix::Reserved181, 182u8 => GpsFix::Reserved182, 183u8 => GpsFix::Reserved183, 184u8 => GpsFix::Reserved184, 185u8 => GpsFix::Reserved185, 186u8 => GpsFix::Reserved186, 187u8 => GpsFix::Reserved187, 188u8 => GpsFix::Reserved188, 189u8 => GpsFix::Reserved189, 190u8 => GpsFix::Reserved190, 191u8 => GpsFix::Reserved191, 192u8 => GpsFix::Reserved192, 193u8 => GpsFix::Reserved193, 194u8 => GpsFix::Reserved194, 195u8 => GpsFix::Reserved195, 196u8 => GpsFix::Reserved196, 197u8 => GpsFix::Reserved197, 198u8 => GpsFix::Reserved198, 199u8 => GpsFix::Reserved199, 200u8 => GpsFix::Reserved200, 201u8 => GpsFix::Reserved201, 202u8 => GpsFix::Reserved202, 203u8 => GpsFix::Reserved203, 204u8 => GpsFix::Reserved204, 205u8 => GpsFix::Reserved205, 206u8 => GpsFix::Reserved206, 207u8 => GpsFix::Reserved207, 208u8 => GpsFix::Reserved208, 209u8 => GpsFix::Reserved209, 210u8 => GpsFix::Reserved210, 211u8 => GpsFix::Reserved211, 212u8 => GpsFix::Reserved212, 213u8 => GpsFix::Reserved213, 214u8 => GpsFix::Reserved214, 215u8 => GpsFix::Reserved215, 216u8 => GpsFix::Reserved216, 217u8 => GpsFix::Reserved217, 218u8 => GpsFix::Reserved218, 219u8 => GpsFix::Reserved219, 220u8 => GpsFix::Reserved220, 221u8 => GpsFix::Reserved221, 222u8 => GpsFix::Reserved222, 223u8 => GpsFix::Reserved223, 224u8 => GpsFix::Reserved224, 225u8 => GpsFix::Reserved225, 226u8 => GpsFix::Reserved226, 227u8 => GpsFix::Reserved227, 228u8 => GpsFix::Reserved228, 229u8 => GpsFix::Reserved229, 230u8 => GpsFix::Reserved230, 231u8 => GpsFix::Reserved231, 232u8 => GpsFix::Reserved232, 233u8 => GpsFix::Reserved233, 234u8 => GpsFix::Reserved234, 235u8 => GpsFix::Reserved235, 236u8 => GpsFix::Reserved236, 237u8 => GpsFix::Reserved237, 238u8 => GpsFix::Reserved238, 239u8 => GpsFix::Reserved239, 240u8 => GpsFix::Reserved240, 241u8 => GpsFix::Reserved241, 242u8 => GpsFix::Reserved242, 243u8 => GpsFix::Reserved243, 244u8 => GpsFix::Reserved244, 245u8 => GpsFix::Reserved245, 246u8 => GpsFix::Reserved246, 247u8 => GpsFix::Reserved247, 248u8 => GpsFix::Reserved248, 249u8 => GpsFix::Reserved249, 250u8 => GpsFix::Reserved250, 251u8 => GpsFix::Reserved251, 252u8 => GpsFix::Reserved252, 253u8 => GpsFix::Reserved253, 254u8 => GpsFix::Reserved254, _ => GpsFix::Reserved255 }
}
/// no undocumented code decodes to a documented variant
pub proof fn theorem_GpsFix_exact(x: u8)
    ensures GpsFix_of(x) is NoFix <==> x == 0, GpsFix_of(x) is DeadReckoningOnly <==> x == 1, GpsFix_of(x) is Fix2D <==> x == 2, GpsFix_of(x) is Fix3D <==> x == 3, GpsFix_of(x) is GPSPlusDeadReckoning <==> x == 4, GpsFix_of(x) is TimeOnlyFix <==> x == 5,
{}
/// documented codes of NavStatusFlags2, all others reserved
pub open spec fn NavStatusFlags2_of(x: u8) -> NavStatusFlags2 {
    match x { 0u8 => NavStatusFlags2::Acquisition, 1u8 => NavStatusFlags2::Tracking, 2u8 => NavStatusFlags2::PowerOptimizedTracking, 3u8 => NavStatusFlags2::Inactive, 4u8 => NavStatusFlags2::Reserved4, 5u8 => NavStatusFlags2::Reserved5, 6u8 => NavStatusFlags2::Reserved6, 7u8 => NavStatusFlags2::Reserved7, 8u8 => NavStatusFlags2::Reserved8, 9u8 => NavStatusFlags2::Reserved9, 10u8 => NavStatusFlags2::Reserved10, 11u8 => NavStatusFlags2::Reserved11, 12u8 => NavStatusFlags2::Reserved12, 13u8 => NavStatusFlags2::Reserved13, 14u8 => NavStatusFlags2::Reserved14, 15u8 => NavStatusFlags2::Reserved15, 16u8 => NavStatusFlags2::Reserved16, 17u8 => NavStatusFlags2::Reserved17, 18u8 => NavStatusFlags2::Reserved18, 19u8 => NavStatusFlags2::Reserved19, 20u8 => NavStatusFlags2::Reserved20, 21u8 => NavStatusFlags2::Reserved21, 22u8 => NavStatusFlags2::Reserved22, 23u8 => NavStatusFlags2::Reserved23, 24u8 => NavStatusFlags2::Reserved24, 25u8 => NavStatusFlags2::Reserved25, 26u8 => NavStatusFlags2::Reserved26, 27u8 => NavStatusFlags2::Reserved27, 28u8 => NavStatusFlags2::Reserved28, 29u8 => NavStatusFlags2::Reserved29, 30u8 => NavStatusFlags2::Reserved30, 31u8 => NavStatusFlags2::Reserved31, 32u8 => NavStatusFlags2::Reserved32, 33u8 => NavStatusFlags2::Reserved33, 34u8 => NavStatusFlags2::Reserved34, 35u8 => NavStatusFlags2::Reserved35, 36u8 => NavStatusFlags2::Reserved36, 37u8 => NavStatusFlags2::Reserved37, 38u8 => NavStatusFlags2::Reserved38, 39u8 => NavStatusFlags2::Reserved39, 40u8 => NavStatusFlags2::Reserved40, 41u8 => NavStatusFlags2::Reserved41, 42u8 => NavStatusFlags2::Reserved42, 43u8 => NavStatusFlags2::Reserved43, 44u8 => NavStatusFlags2::Reserved44, 45u8 => NavStatusFlags2::Reserved45, 46u8 => NavStatusFlags2::Reserved46, 47u8 => NavStatusFlags2::Reserved47, 48u8 => NavStatusFlags2::Reserved48, 49u8 => NavStatusFlags2::Reserved49, 50u8 => NavStatusFlags2::Reserved50, 51u8 => NavStatusFlags2::Reserved51, 52u8 => NavStatusFlags2::Reserved52, 53u8 => NavStatusFlags2::Reserved53, 54u8 => NavStatusFlags2::Reserved54, 55u8 => NavStatusFlags2::Reserved55, 56u8 => NavStatusFlags2::Reserved56, 57u8 => NavStatusFlags2::Reserved57, 58u8 => NavStatusFlags2::Reserved58, 59u8 => NavStatusFlags2::Reserved59, 60u8 => NavStatusFlags2::Reserved60, 61u8 => NavStatusFlags2::Reserved61, 62u8 => NavStatusFlags2::Reserved62, 63u8 => NavStatusFlags2::Reserved63, 64u8 => NavStatusFlags2::Reserved64, 65u8 => NavStatusFlags2::Reserved65, 66u8 => NavStatusFlags2::Reserved66, 67u8 => NavStatusFlags2::Reserved67, 68u8 => NavStatusFlags2::Reserved68, 69u8 => NavStatusFlags2::Reserved69, 70u8 => NavStatusFlags2::Reserved70, 71u8 => NavStatusFlags2::Reserved71, 72u8 => NavStatusFlags2::Reserved72, 73u8 => NavStatusFlags2::Reserved73, 74u8 => NavStatusFlags2::Reserved74, 75u8 => NavStatusFlags2::Reserved75, 76u8 => NavStatusFlags2::Reserved76, 77u8 => NavStatusFlags2::Reserved77, 78u8 => NavStatusFlags2::Reserved78, 79u8 => NavStatusFlags2::Reserved79, 80u8 => NavStatusFlags2::Reserved80, 81u8 => NavStatusFlags2::Reserved81, 82u8 => NavStatusFlags2::Reserved82, 83u8 => NavStatusFlags2::Reserved83, 84u8 => NavStatusFlags2::Reserved84, 85u8 => NavStatusFlags2::Reserved85, 86u8 => NavStatusFlags2::Reserved86, 87u8 => NavStatusFlags2::Reserved87, 88u8 => NavStatusFlags2::Reserved88, 89u8 => NavStatusFlags2::Reserved89, 90u8 => NavStatusFlags2::Reserved90, 91u8 => NavStatusFlags2::Reserved91, 92u8 => NavStatusFlags2::Reserved92, 93u8 => NavStatusFlags2::Reserved93, 94u8 => NavStatusFlags2::Reserved94, 95u8 => NavStatusFlags2::Reserved95, 96u8 => NavStatusFlags2::Reserved96, 97u8 => NavStatusFlags2::Reserved97, 98u8 => NavStatusFlags2::Reserved98, 99u8 => NavStatusFlags2::Reserved99, 100u8 => NavStatusFlags2::Reserved100, 101u8 => NavStatusFlags2::Reserved101, 102u8 => NavStatusFlags2::Reserved102, 103u8 => NavStatusFlags2::Reserved103, 104u8 => NavStatusFlags2::Reserved104, 105u8 => NavStatusFlags2::Reserved105, 106u8 => NavStatusFlags2::Reserved106, 107u8 => NavStatusFlags2::Reserved107, 108u8 => NavStatusFlags2::Reserved108, 109u8 => NavStatusFlags2::Reserved109, 110u8 => NavStatusFlags2::Reserved110, 111u8 => NavStatusFlags2::Reserved111, 112u8 => NavStatusFlags2::Reserved112, 113u8 => NavStatusFlags2::Reserved113, 114u8 => NavStatusFlags2::Reserved114, 115u8 => NavStatusFlags2::Reserved115, 116u8 => NavStatusFlags2::Reserved116, 117u8 => NavStatusFlags2::Reserved117, 118u8 => NavStatusFlags2::Reserved118, 119u8 => NavStatusFlags2::Reserved119, 120u8 => NavStatusFlags2::Reserved120, 121u8 => NavStatusFlags2::Reserved121, 122u8 => NavStatusFlags2::Reserved122, 123u8 => NavStatusFlags2::Reserved123, 124u8 => NavStatusFlags2::Reserved124, 125u8 => NavStatusFlags2::Reserved125, 126u8 => NavStatusFlags2::Reserved126, 127u8 => NavStatusFlags2::Reserved127, 128u8 => NavStatusFlags2::Reserved128, 129u8 => NavStatusFlags2::Reserved129, 130u8 => NavStatusFlags2::Reserved130, 131u8 => NavStatusFlags2::Reserved131, 132u8 => NavStatusFlags2::Reserved132, 133u8 => NavStatusFlags2::Reserved133, 134u8 => NavStatusFlags2::Reserved134, 135u8 => NavStatusFlags2::Reserved135, 136u8 => NavStatusFlags2::Reserved136, 137u8 => NavStatusFlags2::Reserved137, 138u8 => NavStatusFlags2::Reserved138, 139u8 => NavStatusFlags2::Reserved139, 140u8 => NavStatusFlags2::Reserved140, 141u8 => NavStatusFlags2::Reserved141, 142u8 => NavStatusFlags2::Reserved142, 143u8 => NavStatusFlags2::Reserved143, 144u8 => NavStatusFlags2::Reserved144, 145u8 => NavStatusFlags2::Reserved145, 146u8 => NavStatusFlags2::Reserved146, 147u8 => NavStatusFlags2::Reserved147, 148u8 => NavStatusFlags2::Reserved148, 149u8 => NavStatusFlags2::Reserved149, 150u8 => NavStatusFlags2::Reserved150, 151u8 => NavStatusFlags2::Reserved151, 152u8 => NavStatusFlags2::Reserved152, 153u8 => NavStatusFlags2::Reserved153, 154u8 => NavStatusFlags2::Reserved154, 155u8 => NavStatusFlags2::Reserved155, 156u8 => NavStatusFlags2::Reserved156, 157u8 => NavStatusFlags2::Reserved157, 158u8 => NavStatusFlags2::Reserved158, 159u8 => NavStatusFlags2::Reserved159, 160u8 => NavStatusFlags2::Reserved160, 161u8 => NavStatusFlags2::Reserved161, 162u8 => NavStatusFlags2::Reserved162, 163u8 => NavStatusFlags2::Reserved163, 164u8 => NavStatusFlags2::Reserved164, 165u8 => NavStatusFlags2::Reserved165, 166u8 => NavStatusFlags2::Reserved166, 167u8 => NavStatusFlags2::Reserved167, 168u8 => NavStatusFlags2::Reserved168, 169u8 => NavStatusFlags2::Reserved169, 170u8 => NavStatusFlags2::Reserved170, 171u8 => NavStatusFlags2::Reserved171, 172u8 => NavStatusFlags2::Reserved172, 173u8 => NavStatusFlags2::Reserved173, 174u8 => NavStatusFlags2::Reserved174, 175u8 => NavStatusFlags2::Reserved175, 176u8 => NavStatusFlags2::Reserved176, 177u8 => NavStatusFlags2::Reserved177, 178u8 => NavStatusFlags2::Reserved178, 179u8 => NavStatusFlags2::Reserved179, 180u8 => NavStatusFlags2::Reserved180, 181u8 => NavStatusFlags2::Reserved181, 182u8 => NavStatusFlags2::Reserved182, 183u8 => NavStatusFlags2::Reserved183, 184u8 => NavStatusFlags2::Reserved184, 185u8 => NavStatusFlags2::Reserved185, 186u8 => NavStatusFlags2::Reserved186, 187u8 => NavStatusFlags2::Reserved187, 188u8 => NavStatusFlags2::Reserved188, 189u8 => NavStatusFlags2::Reserved189, 190u8 => NavStatusFlags2::Reserved190, 191u8 => NavStatusFlags2::Reserved191, 192u8 => NavStatusFlags2::Reserved192, 193u8 => NavStatusFlags2::Reserved193, 194u8 => NavStatusFlags2::Reserved194, 195u8 => NavStatusFlags2::Reserved195, 196u8 => NavStatusFlags2::Reserved196, 197u8 => NavStatusFlags2::Reserved197, 198u8 => NavStatusFlags2::Reserved198, 199u8 => NavStatusFlags2::Reserved199, 200u8 => NavStatusFlags2::Reserved200, 201u8 => NavStatusFlags2::Reserved201, 202u8 => NavStatusFlags2::Reserved202, 203u8 => NavStatusFlags2::Reserved203, 204u8 => NavStatusFlags2::Reserved204, 205u8 => NavStatusFlags2::Reserved205, 206u8 => NavStatusFlags2::Reserved206, 207u8 => NavStatusFlags2::Reserved207, 208u8 => NavStatusFlags2::Reserved208, 209u8 => NavStatusFlags2::Reserved209, 210u8 => NavStatusFlags2::Reserved210, 211u8 => NavStatusFlags2::Reserved211, 212u8 => NavStatusFlags2::Reserved212, 213u8 => NavStatusFlags2::Reserved213, 214u8 => NavStatusFlags2::Reserved214, 215u8 => NavStatusFlags2::Reserved215, 216u8 => NavStatusFlags2::Reserved216, 217u8 => NavStatusFlags2::Reserved217, 218u8 => NavStatusFlags2::Reserved218, 219u8 => NavStatusFlags2::Reserved219, 220u8 => NavStatusFlags2::Reserved220, 221u8 => NavStatusFlags2::Reserved221, 222u8 => NavStatusFlags2::Reserved222, 223u8 => NavStatusFlags2::Reserved223, 224u8 => NavStatusFlags2::Reserved224, 225u8 => NavStatusFlags2::Reserved225, 226u8 => NavStatusFlags2::Reserved226, 227u8 => NavStatusFlags2::Reserved227, 228u8 => NavStatusFlags2::Reserved228, 229u8 => NavStatusFlags2::Reserved229, 230u8 => NavStatusFlags2::Reserved230, 231u8 => NavStatusFlags2::Reserved231, 232u8 => NavStatusFlags2::Reserved232, 233u8 => NavStatusFlags2::Reserved233, 234u8 => NavStatusFlags2::Reserved234, 235u8 => NavStatusFlags2::Reserved235, 236u8 => NavStatusFlags2::Reserved236, 237u8 => NavStatusFlags2::Reserved237, 238u8 => NavStatusFlags2::Reserved238, 239u8 => NavStatusFlags2::Reserved239, 240u8 => NavStatusFlags2::Reserved240, 241u8 => NavStatusFlags2::Reserved241, 242u8 => NavStatusFlags2::Reserved242, 243u8 => NavStatusFlags2::Reserved243, 244u8 => NavStatusFlags2::Reserved244, 245u8 => NavStatusFlags2::Reserved245, 246u8 => NavStatusFlags2::Reserved246, 247u8 => NavStatusFlags2::Reserved247, 248u8 => NavStatusFlags2::Reserved248, 249u8 => NavStatusFlags2::Reserved249, 250u8 => NavStatusFlags2::Reserved250, 251u8 => NavStatusFlags2::Reserved251, 252u8 => NavStatusFlags2::Reserved252, 253u8 => NavStatusFlags2::Reserved253, 254u8 => NavStatusFlags2::Reserved254, _ => NavStatusFlags2::Reserved255 }
}
/// no undocumented code decodes to a documented variant
pub proof fn theorem_NavStatusFlags2_exact(x: u8)
    ensures NavStatusFlags2_of(x) is Acquisition <==> x == 0, NavStatusFlags2_of(x) is Tracking <==> x == 1, NavStatusFlags2_of(x) is PowerOptimizedTracking <==> x == 2, NavStatusFlags2_of(x) is Inactive <==> x == 3,
{}
/// documented codes of OdoProfile
pub open spec fn OdoProfile_of(x: u8) -> OdoProfile {
    match x { 0u8 => OdoProfile::Running, 1u8 => OdoProfile::Cycling, 2u8 => OdoProfile::Swimming, 3u8 => OdoProfile::Car, 4u8 => OdoProfile::Custom, _ => OdoProfile::Custom }
}
pub open spec fn OdoProfile_valid(x: u8) -> bool { x == 0 || x == 1 || x == 2 || x == 3 || x == 4 }
pub open spec fn OdoProfile_code(e: OdoProfile) -> u8 {
    match e { OdoProfile::Running => 0, OdoProfile::Cycling => 1, OdoProfile::Swimming => 2, OdoProfile::Car => 3, OdoProfile::Custom => 4 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_OdoProfile_roundtrip(e: OdoProfile, x: u8)
    ensures OdoProfile_valid(OdoProfile_code(e)), OdoProfile_of(OdoProfile_code(e)) == e, OdoProfile_valid(x) ==> OdoProfile_code(OdoProfile_of(x)) == x,
{}
/// documented codes of CfgItfmAntennaSettings
pub open spec fn CfgItfmAntennaSettings_of(x: u8) -> CfgItfmAntennaSettings {
    match x { 0u8 => CfgItfmAntennaSettings::Unknown, 1u8 => CfgItfmAntennaSettings::Active, 2u8 => CfgItfmAntennaSettings::Passive, _ => CfgItfmAntennaSettings::Passive }
}
pub open spec fn CfgItfmAntennaSettings_valid(x: u8) -> bool { x == 0 || x == 1 || x == 2 }
pub open spec fn CfgItfmAntennaSettings_code(e: CfgItfmAntennaSettings) -> u8 {
    match e { CfgItfmAntennaSettings::Unknown => 0, CfgItfmAntennaSettings::Active => 1, CfgItfmAntennaSettings::Passive => 2 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_CfgItfmAntennaSettings_roundtrip(e: CfgItfmAntennaSettings, x: u8)
    ensures CfgItfmAntennaSettings_valid(CfgItfmAntennaSettings_code(e)), CfgItfmAntennaSettings_of(CfgItfmAntennaSettings_code(e)) == e, CfgItfmAntennaSettings_valid(x) ==> CfgItfmAntennaSettings_code(CfgItfmAntennaSettings_of(x)) == x,
{}
/// documented codes of CfgTp5TimePulseMode
pub open spec fn CfgTp5TimePulseMode_of(x: u8) -> CfgTp5TimePulseMode {
    match x { 0u8 => CfgTp5TimePulseMode::TimePulse, 1u8 => CfgTp5TimePulseMode::TimePulse2, _ => CfgTp5TimePulseMode::TimePulse2 }
}
pub open spec fn CfgTp5TimePulseMode_valid(x: u8) -> bool { x == 0 || x == 1 }
pub open spec fn CfgTp5TimePulseMode_code(e: CfgTp5TimePulseMode) -> u8 {
    match e { CfgTp5TimePulseMode::TimePulse => 0, CfgTp5TimePulseMode::TimePulse2 => 1 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_CfgTp5TimePulseMode_roundtrip(e: CfgTp5TimePulseMode, x: u8)
    ensures CfgTp5TimePulseMode_valid(CfgTp5TimePulseMode_code(e)), CfgTp5TimePulseMode_of(CfgTp5TimePulseMode_code(e)) == e, CfgTp5TimePulseMode_valid(x) ==> CfgTp5TimePulseMode_code(CfgTp5TimePulseMode_of(x)) == x,
{}
/// documented codes of CfgTmode2TimeXferModes
pub open spec fn CfgTmode2TimeXferModes_of(x: u8) -> CfgTmode2TimeXferModes {
    match x { 0u8 => CfgTmode2TimeXferModes::Disabled, 1u8 => CfgTmode2TimeXferModes::SurveyIn, 2u8 => CfgTmode2TimeXferModes::FixedMode, _ => CfgTmode2TimeXferModes::FixedMode }
}
pub open spec fn CfgTmode2TimeXferModes_valid(x: u8) -> bool { x == 0 || x == 1 || x == 2 }
pub open spec fn CfgTmode2TimeXferModes_code(e: CfgTmode2TimeXferModes) -> u8 {
    match e { CfgTmode2TimeXferModes::Disabled => 0, CfgTmode2TimeXferModes::SurveyIn => 1, CfgTmode2TimeXferModes::FixedMode => 2 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_CfgTmode2TimeXferModes_roundtrip(e: CfgTmode2TimeXferModes, x: u8)
    ensures CfgTmode2TimeXferModes_valid(CfgTmode2TimeXferModes_code(e)), CfgTmode2TimeXferModes_of(CfgTmode2TimeXferModes_code(e)) == e, CfgTmode2TimeXferModes_valid(x) ==> CfgTmode2TimeXferModes_code(CfgTmode2TimeXferModes_of(x)) == x,
{}
/// documented codes of I2cPortId
pub open spec fn I2cPortId_of(x: u8) -> I2cPortId {
    match x { 0u8 => I2cPortId::I2c, _ => I2cPortId::I2c }
}
pub open spec fn I2cPortId_valid(x: u8) -> bool { x == 0 }
pub open spec fn I2cPortId_code(e: I2cPortId) -> u8 {
    match e { I2cPortId::I2c => 0 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_I2cPortId_roundtrip(e: I2cPortId, x: u8)
    ensures I2cPortId_valid(I2cPortId_code(e)), I2cPortId_of(I2cPortId_code(e)) == e, I2cPortId_valid(x) ==> I2cPortId_code(I2cPortId_of(x)) == x,
{}
/// documented codes of UartPortId
pub open spec fn UartPortId_of(x: u8) -> UartPortId {
    match x { 1u8 => UartPortId::Uart1, 2u8 => UartPortId::Uart2, 3u8 => UartPortId::Usb, _ => UartPortId::Usb }
}
pub open spec fn UartPortId_valid(x: u8) -> bool { x == 1 || x == 2 || x == 3 }
pub open spec fn UartPortId_code(e: UartPortId) -> u8 {
    match e { UartPortId::Uart1 => 1, UartPortId::Uart2 => 2, UartPortId::Usb => 3 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_UartPortId_roundtrip(e: UartPortId, x: u8)
    ensures UartPortId_valid(UartPortId_code(e)), UartPortId_of(UartPortId_code(e)) == e, UartPortId_valid(x) ==> UartPortId_code(UartPortId_of(x)) == x,
{}
/// documented codes of SpiPortId
pub open spec fn SpiPortId_of(x: u8) -> SpiPortId {
    match x { 4u8 => SpiPortId::Spi, _ => SpiPortId::Spi }
}
pub open spec fn SpiPortId_valid(x: u8) -> bool { x == 4 }
pub open spec fn SpiPortId_code(e: SpiPortId) -> u8 {
    match e { SpiPortId::Spi => 4 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_SpiPortId_roundtrip(e: SpiPortId, x: u8)
    ensures SpiPortId_valid(SpiPortId_code(e)), SpiPortId_of(SpiPortId_code(e)) == e, SpiPortId_valid(x) ==> SpiPortId_code(SpiPortId_of(x)) == x,
{}
/// documented codes of CfgNav5DynModel
pub open spec fn CfgNav5DynModel_of(x: u8) -> CfgNav5DynModel {
    match x { 0u8 => CfgNav5DynModel::Portable, 2u8 => CfgNav5DynModel::Stationary, 3u8 => CfgNav5DynModel::Pedestrian, 4u8 => CfgNav5DynModel::Automotive, 5u8 => CfgNav5DynModel::Sea, 6u8 => CfgNav5DynModel::AirborneWithLess1gAcceleration, 7u8 => CfgNav5DynModel::AirborneWithLess2gAcceleration, 8u8 => CfgNav5DynModel::AirborneWith4gAcceleration, 9u8 => CfgNav5DynModel::WristWornWatch, 10u8 => CfgNav5DynModel::Bike, _ => CfgNav5DynModel::Bike }
}
pub open spec fn CfgNav5DynModel_valid(x: u8) -> bool { x == 0 || x == 2 || x == 3 || x == 4 || x == 5 || x == 6 || x == 7 || x == 8 || x == 9 || x == 10 }
pub open spec fn CfgNav5DynModel_code(e: CfgNav5DynModel) -> u8 {
    match e { CfgNav5DynModel::Portable => 0, CfgNav5DynModel::Stationary => 2, CfgNav5DynModel::Pedestrian => 3, CfgNav5DynModel::Automotive => 4, CfgNav5DynModel::Sea => 5, CfgNav5DynModel::AirborneWithLess1gAcceleration => 6, CfgNav5DynModel::AirborneWithLess2gAcceleration => 7, CfgNav5DynModel::AirborneWith4gAcceleration => 8, CfgNav5DynModel::WristWornWatch => 9, CfgNav5DynModel::Bike => 10 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_CfgNav5DynModel_roundtrip(e: CfgNav5DynModel, x: u8)
    ensures CfgNav5DynModel_valid(CfgNav5DynModel_code(e)), CfgNav5DynModel_of(CfgNav5DynModel_code(e)) == e, CfgNav5DynModel_valid(x) ==> CfgNav5DynModel_code(CfgNav5DynModel_of(x)) == x,
{}
/// documented codes of CfgNav5FixMode
pub open spec fn CfgNav5FixMode_of(x: u8) -> CfgNav5FixMode {
    match x { 1u8 => CfgNav5FixMode::Only2D, 2u8 => CfgNav5FixMode::Only3D, 3u8 => CfgNav5FixMode::Auto2D3D, _ => CfgNav5FixMode::Auto2D3D }
}
pub open spec fn CfgNav5FixMode_valid(x: u8) -> bool { x == 1 || x == 2 || x == 3 }
pub open spec fn CfgNav5FixMode_code(e: CfgNav5FixMode) -> u8 {
    match e { CfgNav5FixMode::Only2D => 1, CfgNav5FixMode::Only3D => 2, CfgNav5FixMode::Auto2D3D => 3 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_CfgNav5FixMode_roundtrip(e: CfgNav5FixMode, x: u8)
    ensures CfgNav5FixMode_valid(CfgNav5FixMode_code(e)), CfgNav5FixMode_of(CfgNav5FixMode_code(e)) == e, CfgNav5FixMode_valid(x) ==> CfgNav5FixMode_code(CfgNav5FixMode_of(x)) == x,
{}
/// documented codes of CfgNav5UtcStandard
pub open spec fn CfgNav5UtcStandard_of(x: u8) -> CfgNav5UtcStandard {
    match x { 0u8 => CfgNav5UtcStandard::Automatic, 3u8 => CfgNav5UtcStandard::Usno, 6u8 => CfgNav5UtcStandard::UtcSu, 7u8 => CfgNav5UtcStandard::UtcChina, _ => CfgNav5UtcStandard::UtcChina }
}
pub open spec fn CfgNav5UtcStandard_valid(x: u8) -> bool { x == 0 || x == 3 || x == 6 || x == 7 }
pub open spec fn CfgNav5UtcStandard_code(e: CfgNav5UtcStandard) -> u8 {
    match e { CfgNav5UtcStandard::Automatic => 0, CfgNav5UtcStandard::Usno => 3, CfgNav5UtcStandard::UtcSu => 6, CfgNav5UtcStandard::UtcChina => 7 }
}
/// decoding inverts encoding, and the other way round on documented codes
pub proof fn theorem_CfgNav5UtcStandard_roundtrip(e: CfgNav5UtcStandard, x: u8)
    ensures CfgNav5UtcStandard_valid(CfgNav5UtcStandard_code(e)), CfgNav5UtcStandard_of(CfgNav5UtcStandard_code(e)) == e, CfgNav5UtcStandard_valid(x) ==> CfgNav5UtcStandard_code(CfgNav5UtcStandard_of(x)) == x,
{}
/// documented codes of MsgAckInfoCode, all others reserved
pub open spec fn MsgAckInfoCode_of(x: u8) -> MsgAckInfoCode {
    match x { 0u8 => MsgAckInfoCode::Accepted, 1u8 => MsgAckInfoCode::RejectedNoTime, 2u8 => MsgAckInfoCode::RejectedBadVersion, 3u8 => MsgAckInfoCode::RejectedBadSize, 4u8 => MsgAckInfoCode::RejectedDBStoreFailed, 5u8 => MsgAckInfoCode::RejectedNotReady, 6u8 => MsgAckInfoCode::RejectedUnknownType, 7u8 => MsgAckInfoCode::Reserved7, 8u8 => MsgAckInfoCode::Reserved8, 9u8 => MsgAckInfoCode::Reserved9, 10u8 => MsgAckInfoCode::Reserved10, 11u8 => MsgAckInfoCode::Reserved11, 12u8 => MsgAckInfoCode::Reserved12, 13u8 => MsgAckInfoCode::Reserved13, 14u8 => MsgAckInfoCode::Reserved14, 15u8 => MsgAckInfoCode::Reserved15, 16u8 => MsgAckInfoCode::Reserved16, 17u8 => MsgAckInfoCode::Reserved17, 18u8 => MsgAckInfoCode::Reserved18, 19u8 => MsgAckInfoCode::Reserved19, 20u8 => MsgAckInfoCode::Reserved20, 21u8 => MsgAckInfoCode::Reserved21, 22u8 => MsgAckInfoCode::Reserved22, 23u8 => MsgAckInfoCode::Reserved23, 24u8 => MsgAckInfoCode::Reserved24, 25u8 => MsgAckInfoCode::Reserved25, 26u8 => MsgAckInfoCode::Reserved26, 27u8 => MsgAckInfoCode::Reserved27, 28u8 => MsgAckInfoCode::Reserved28, 29u8 => MsgAckInfoCode::Reserved29, 30u8 => MsgAckInfoCode::Reserved30, 31u8 => MsgAckInfoCode::Reserved31, 32u8 => MsgAckInfoCode::Reserved32, 33u8 => MsgAckInfoCode::Reserved33, 34u8 => MsgAckInfoCode::Reserved34, 35u8 => MsgAckInfoCode::Reserved35, 36u8 => MsgAckInfoCode::Reserved36, 37u8 => MsgAckInfoCode::Reserved37, 38u8 => MsgAckInfoCode::Reserved38, 39u8 => MsgAckInfoCode::Reserved39, 40u8 => MsgAckInfoCode::Reserved40, 41u8 => MsgAckInfoCode::Reserved41, 42u8 => MsgAckInfoCode::Reserved42, 43u8 => MsgAckInfoCode::Reserved43, 44u8 => MsgAckInfoCode::Reserved44, 45u8 => MsgAckInfoCode::Reserved45, 46u8 => MsgAckInfoCode::Reserved46, 47u8 => MsgAckInfoCode::Reserved47, 48u8 => MsgAckInfoCode::Reserved48, 49u8 => MsgAckInfoCode::Reserved49, 50u8 => MsgAckInfoCode::Reserved50, 51u8 => MsgAckInfoCode::Reserved51, 52u8 => MsgAckInfoCode::Reserved52, 53u8 => MsgAckInfoCode::Reserved53, 54u8 => MsgAckInfoCode::Reserved54, 55u8 => MsgAckInfoCode::Reserved55, 56u8 => MsgAckInfoCode::Reserved56, 57u8 => MsgAckInfoCode::Reserved57, 58u8 => MsgAckInfoCode::Reserved58, 59u8 => MsgAckInfoCode::Reserved59, 60u8 => MsgAckInfoCode::Reserved60, 61u8 => MsgAckInfoCode::Reserved61, 62u8 => MsgAckInfoCode::Reserved62, 63u8 => MsgAckInfoCode::Reserved63, 64u8 => MsgAckInfoCode::Reserved64, 65u8 => MsgAckInfoCode::Reserved65, 66u8 => MsgAckInfoCode::Reserved66, 67u8 => MsgAckInfoCode::Reserved67, 68u8 => MsgAckInfoCode::Reserved68, 69u8 => MsgAckInfoCode::Reserved69, 70u8 => MsgAckInfoCode::Reserved70, 71u8 => MsgAckInfoCode::Reserved71, 72u8 => MsgAckInfoCode::Reserved72, 73u8 => MsgAckInfoCode::Reserved73, 74u8 => MsgAckInfoCode::Reserved74, 75u8 => MsgAckInfoCode::Reserved75, 76u8 => MsgAckInfoCode::Reserved76, 77u8 => MsgAckInfoCode::Reserved77, 78u8 => MsgAckInfoCode::Reserved78, 79u8 => MsgAckInfoCode::Reserved79, 80u8 => MsgAckInfoCode::Reserved80, 81u8 => MsgAckInfoCode::Reserved81, 82u8 => MsgAckInfoCode::Reserved82, 83u8 => MsgAckInfoCode::Reserved83, 84u8 => MsgAckInfoCode::Reserved84, 85u8 => MsgAckInfoCode::Reserved85, 86u8 => MsgAckInfoCode::Reserved86, 87u8 => MsgAckInfoCode::Reserved87, 88u8 => MsgAckInfoCode::Reserved88, 89u8 => MsgAckInfoCode::Reserved89, 90u8 => MsgAckInfoCode::Reserved90, 91u8 => MsgAckInfoCode::Reserved91, 92u8 => MsgAckInfoCode::Reserved92, 93u8 => MsgAckInfoCode::Reserved93, 94u8 => MsgAckInfoCode::Reserved94, 95u8 => MsgAckInfoCode::Reserved95, 96u8 => MsgAckInfoCode::Reserved96, 97u8 => MsgAckInfoCode::Reserved97, 98u8 => MsgAckInfoCode::Reserved98, 99u8 => MsgAckInfoCode::Reserved99, 100u8 => MsgAckInfoCode::Reserved100, 101u8 => MsgAckInfoCode::Reserved101, 102u8 => MsgAckInfoCode::Reserved102, 103u8 => MsgAckInfoCode::Reserved103, 104u8 => MsgAckInfoCode::Reserved104, 105u8 => MsgAckInfoCode::Reserved105, 106u8 => MsgAckInfoCode::Reserved106, 107u8 => MsgAckInfoCode::Reserved107, 108u8 => MsgAckInfoCode::Reserved108, 109u8 => MsgAckInfoCode::Reserved109, 110u8 => MsgAckInfoCode::Reserved110, 111u8 => MsgAckInfoCode::Reserved111, 112u8 => MsgAckInfoCode::Reserved112, 113u8 => MsgAckInfoCode::Reserved113, 114u8 => MsgAckInfoCode::Reserved114, 115u8 => MsgAckInfoCode::Reserved115, 116u8 => MsgAckInfoCode::Reserved116, 117u8 => MsgAckInfoCode::Reserved117, 118u8 => MsgAckInfoCode::Reserved118, 119u8 => MsgAckInfoCode::Reserved119, 120u8 => MsgAckInfoCode::Reserved120, 121u8 => MsgAckInfoCode::Reserved121, 122u8 => MsgAckInfoCode::Reserved122, 123u8 => MsgAckInfoCode::Reserved123, 124u8 => MsgAckInfoCode::Reserved124, 125u8 => MsgAckInfoCode::Reserved125, 126u8 => MsgAckInfoCode::Reserved126, 127u8 => MsgAckInfoCode::Reserved127, 128u8 => MsgAckInfoCode::Reserved128, 129u8 => MsgAckInfoCode::Reserved129, 130u8 => MsgAckInfoCode::Reserved130, 131u8 => MsgAckInfoCode::Reserved131, 132u8 => MsgAckInfoCode::Reserved132, 133u8 => MsgAckInfoCode::Reserved133, 134u8 => MsgAckInfoCode::Reserved134, 135u8 => MsgAckInfoCode::Reserved135, 136u8 => MsgAckInfoCode::Reserved136, 137u8 => MsgAckInfoCode::Reserved137, 138u8 => MsgAckInfoCode::Reserved138, 139u8 => MsgAckInfoCode::Reserved139, 140u8 => MsgAckInfoCode::Reserved140, 141u8 => MsgAckInfoCode::Reserved141, 142u8 => MsgAckInfoCode::Reserved142, 143u8 => MsgAckInfoCode::Reserved143, 144u8 => MsgAckInfoCode::Reserved144, 145u8 => MsgAckInfoCode::Reserved145, 146u8 => MsgAckInfoCode::Reserved146, 147u8 => MsgAckInfoCode::Reserved147, 148u8 => MsgAckInfoCode::Reserved148, 149u8 => MsgAckInfoCode::Reserved149, 150u8 => MsgAckInfoCode::Reserved150, 151u8 => MsgAckInfoCode::Reserved151, 152u8 => MsgAckInfoCode::Reserved152, 153u8 => MsgAckInfoCode::Reserved153, 154u8 => MsgAckInfoCode::Reserved154, 155u8 => MsgAckInfoCode::Reserved155, 156u8 => MsgAckInfoCode::Reserved156, 157u8 => MsgAckInfoCode::Reserved157, 158u8 => MsgAckInfoCode::Reserved158, 159u8 => MsgAckInfoCode::Reserved159, 160u8 => MsgAckInfoCode::Reserved160, 161u8 => MsgAckInfoCode::Reserved161, 162u8 => MsgAckInfoCode::Reserved162, 163u8 => MsgAckInfoCode::Reserved163, 164u8 => MsgAckInfoCode::Reserved164, 165u8 => MsgAckInfoCode::Reserved165, 166u8 => MsgAckInfoCode::Reserved166, 167u8 => MsgAckInfoCode::Reserved167, 168u8 => MsgAckInfoCode::Reserved168, 169u8 => MsgAckInfoCode::Reserved169, 170u8 => MsgAckInfoCode::Reserved170, 171u8 => MsgAckInfoCode::Reserved171, 172u8 => MsgAckInfoCode::Reserved172, 173u8 => MsgAckInfoCode::Reserved173, 174u8 => MsgAckInfoCode::Reserved174, 175u8 => MsgAckInfoCode::Reserved175, 176u8 => MsgAckInfoCode::Reserved176, 177u8 => MsgAckInfoCode::Reserved177, 178u8 => MsgAckInfoCode::Reserved178, 179u8 => MsgAckInfoCode::Reserved179, 180u8 => MsgAckInfoCode::Reserved180, 181u8 => MsgAckInfoCode::Reserved181, 182u8 => MsgAckInfoCode::Reserved182, 183u8 => MsgAckInfoCode::Reserved183, 184u8 => MsgAckInfoCode::Reserved184, 185u8 => MsgAckInfoCode::Reserved185, 186u8 => MsgAckInfoCode::Reserved186, 187u8 => MsgAckInfoCode::Reserved187, 188u8 => MsgAckInfoCode::Reserved188, 189u8 => MsgAckInfoCode::Reserved189, 190u8 => MsgAckInfoCode::Reserved190, 191u8 => MsgAckInfoCode::Reserved191, 192u8 => MsgAckInfoCode::Reserved192, 193u8 => MsgAckInfoCode::Reserved193, 194u8 => MsgAckInfoCode::Reserved194, 195u8 => MsgAckInfoCode::Reserved195, 196u8 => MsgAckInfoCode::Reserved196, 197u8 => MsgAckInfoCode::Reserved197, 198u8 => MsgAckInfoCode::Reserved198, 199u8 => MsgAckInfoCode::Reserved199, 200u8 => MsgAckInfoCode::Reserved200, 201u8 => MsgAckInfoCode::Reserved201, 202u8 => MsgAckInfoCode::Reserved202, 203u8 => MsgAckInfoCode::Reserved203, 204u8 => MsgAckInfoCode::Reserved204, 205u8 => MsgAckInfoCode::Reserved205, 206u8 => MsgAckInfoCode::Reserved206, 207u8 => MsgAckInfoCode::Reserved207, 208u8 => MsgAckInfoCode::Reserved208, 209u8 => MsgAckInfoCode::Reserved209, 210u8 => MsgAckInfoCode::Reserved210, 211u8 => MsgAckInfoCode::Reserved211, 212u8 => MsgAckInfoCode::Reserved212, 213u8 => MsgAckInfoCode::Reserved213, 214u8 => MsgAckInfoCode::Reserved214, 215u8 => MsgAckInfoCode::Reserved215, 216u8 => MsgAckInfoCode::Reserved216, 217u8 => MsgAckInfoCode::Reserved217, 218u8 => MsgAckInfoCode::Reserved218, 219u8 => MsgAckInfoCode::Reserved219, 220u8 => MsgAckInfoCode::Reserved220, 221u8 => MsgAckInfoCode::Reserved221, 222u8 => MsgAckInfoCode::Reserved222, 223u8 => MsgAckInfoCode::Reserved223, 224u8 => MsgAckInfoCode::Reserved224, 225u8 => MsgAckInfoCode::Reserved225, 226u8 => MsgAckInfoCode::Reserved226, 227u8 => MsgAckInfoCode::Reserved227, 228u8 => MsgAckInfoCode::Reserved228, 229u8 => MsgAckInfoCode::Reserved229, 230u8 => MsgAckInfoCode::Reserved230, 231u8 => MsgAckInfoCode::Reserved231, 232u8 => MsgAckInfoCode::Reserved232, 233u8 => MsgAckInfoCode::Reserved233, 234u8 => MsgAckInfoCode::Reserved234, 235u8 => MsgAckInfoCode::Reserved235, 236u8 => MsgAckInfoCode::Reserved236, 237u8 => MsgAckInfoCode::Reserved237, 238u8 => MsgAckInfoCode::Reserved238, 239u8 => MsgAckInfoCode::Reserved239, 240u8 => MsgAckInfoCode::Reserved240, 241u8 => MsgAckInfoCode::Reserved241, 242u8 => MsgAckInfoCode::Reserved242, 243u8 => MsgAckInfoCode::Reserved243, 244u8 => MsgAckInfoCode::Reserved244, 245u8 => MsgAckInfoCode::Reserved245, 246u8 => MsgAckInfoCode::Reserved246, 247u8 => MsgAckInfoCode::Reserved247, 248u8 => MsgAckInfoCode::Reserved248, 249u8 => MsgAckInfoCode::Reserved249, 250u8 => MsgAckInfoCode::Reserved250, 251u8 => MsgAckInfoCode::Reserved251, 252u8 => MsgAckInfoCode::Reserved252, 253u8 => MsgAckInfoCode::Reserved253, 254u8 => MsgAckInfoCode::Reserved254, _ => MsgAckInfoCode::Reserved255 }
}
/// no undocumented code decodes to a documented variant
pub proof fn theorem_MsgAckInfoCode_exact(x: u8)
    ensures MsgAckInfoCode_of(x) is Accepted <==> x == 0, MsgAckInfoCode_of(x) is RejectedNoTime <==> x == 1, MsgAckInfoCode_of(x) is RejectedBadVersion <==> x == 2, MsgAckInfoCode_of(x) is RejectedBadSize <==> x == 3, MsgAckInfoCode_of(x) is RejectedDBStoreFailed <==> x == 4, MsgAckInfoCode_of(x) is RejectedNotReady <==> x == 5, MsgAckInfoCode_of(x) is RejectedUnknownType <==> x == 6,
{}
/// documented codes of AntennaStatus, all others reserved
pub open spec fn AntennaStatus_of(x: u8) -> AntennaStatus {
    match x { 0u8 => AntennaStatus::Init, 1u8 => AntennaStatus::DontKnow, 2u8 => AntennaStatus::Ok, 3u8 => AntennaStatus::Short, 4u8 => AntennaStatus::Open, 5u8 => AntennaStatus::Reserved5, 6u8 => AntennaStatus::Reserved6, 7u8 => AntennaStatus::Reserved7, 8u8 => AntennaStatus::Reserved8, 9u8 => AntennaStatus::Reserved9, 10u8 => AntennaStatus::Reserved10, 11u8 => AntennaStatus::Reserved11, 12u8 => AntennaStatus::Reserved12, 13u8 => AntennaStatus::Reserved13, 14u8 => AntennaStatus::Reserved14, 15u8 => AntennaStatus::Reserved15, 16u8 => AntennaStatus::Reserved16, 17u8 => AntennaStatus::Reserved17, 18u8 => AntennaStatus::Reserved18, 19u8 => AntennaStatus::Reserved19, 20u8 => AntennaStatus::Reserved20, 21u8 => AntennaStatus::Reserved21, 22u8 => AntennaStatus::Reserved22, 23u8 => AntennaStatus::Reserved23, 24u8 => AntennaStatus::Reserved24, 25u8 => AntennaStatus::Reserved25, 26u8 => AntennaStatus::Reserved26, 27u8 => AntennaStatus::Reserved27, 28u8 => AntennaStatus::Reserved28, 29u8 => AntennaStatus::Reserved29, 30u8 => AntennaStatus::Reserved30, 31u8 => AntennaStatus::Reserved31, 32u8 => AntennaStatus::Reserved32, 33u8 => AntennaStatus::Reserved33, 34u8 => AntennaStatus::Reserved34, 35u8 => AntennaStatus::Reserved35, 36u8 => AntennaStatus::Reserved36, 37u8 => AntennaStatus::Reserved37, 38u8 => AntennaStatus::Reserved38, 39u8 => AntennaStatus::Reserved39, 40u8 => AntennaStatus::Reserved40, 41u8 => AntennaStatus::Reserved41, 42u8 => AntennaStatus::Reserved42, 43u8 => AntennaStatus::Reserved43, 44u8 => AntennaStatus::Reserved44, 45u8 => AntennaStatus::Reserved45, 46u8 => AntennaStatus::Reserved46, 47u8 => AntennaStatus::Reserved47, 48u8 => AntennaStatus::Reserved48, 49u8 => AntennaStatus::Reserved49, 50u8 => AntennaStatus::Reserved50, 51u8 => AntennaStatus::Reserved51, 52u8 => AntennaStatus::Reserved52, 53u8 => AntennaStatus::Reserved53, 54u8 => AntennaStatus::Reserved54, 55u8 => AntennaStatus::Reserved55, 56u8 => AntennaStatus::Reserved56, 57u8 => AntennaStatus::Reserved57, 58u8 => AntennaStatus::Reserved58, 59u8 => AntennaStatus::Reserved59, 60u8 => AntennaStatus::Reserved60, 61u8 => AntennaStatus::Reserved61, 62u8 => AntennaStatus::Reserved62, 63u8 => AntennaStatus::Reserved63, 64u8 => AntennaStatus::Reserved64, 65u8 => AntennaStatus::Reserved65, 66u8 => AntennaStatus::Reserved66, 67u8 => AntennaStatus::Reserved67, 68u8 => AntennaStatus::Reserved68, 69u8 => AntennaStatus::Reserved69, 70u8 => AntennaStatus::Reserved70, 71u8 => AntennaStatus::Reserved71, 72u8 => AntennaStatus::Reserved72, 73u8 => AntennaStatus::Reserved73, 74u8 => AntennaStatus::Reserved74, 75u8 => AntennaStatus::Reserved75, 76u8 => AntennaStatus::Reserved76, 77u8 => AntennaStatus::Reserved77, 78u8 => AntennaStatus::Reserved78, 79u8 => AntennaStatus::Reserved79, 80u8 => AntennaStatus::Reserved80, 81u8 => AntennaStatus::Reserved81, 82u8 => AntennaStatus::Reserved82, 83u8 => AntennaStatus::Reserved83, 84u8 => AntennaStatus::Reserved84, 85u8 => AntennaStatus::Reserved85, 86u8 => AntennaStatus::Reserved86, 87u8 => AntennaStatus::Reserved87, 88u8 => AntennaStatus::Reserved88, 89u8 => AntennaStatus::Reserved89, 90u8 => AntennaStatus::Reserved90, 91u8 => AntennaStatus::Reserved91, 92u8 => AntennaStatus::Reserved92, 93u8 => AntennaStatus::Reserved93, 94u8 => AntennaStatus::Reserved94, 95u8 => AntennaStatus::Reserved95, 96u8 => AntennaStatus::Reserved96, 97u8 => AntennaStatus::Reserved97, 98u8 => AntennaStatus::Reserved98, 99u8 => AntennaStatus::Reserved99, 100u8 => AntennaStatus::Reserved100, 101u8 => AntennaStatus::Reserved101, 102u8 => AntennaStatus::Reserved102, 103u8 => AntennaStatus::Reserved103, 104u8 => AntennaStatus::Reserved104, 105u8 => AntennaStatus::Reserved105, 106u8 => AntennaStatus::Reserved106, 107u8 => AntennaStatus::Reserved107, 108u8 => AntennaStatus::Reserved108, 109u8 => AntennaStatus::Reserved109, 110u8 => AntennaStatus::Reserved110, 111u8 => AntennaStatus::Reserved111, 112u8 => AntennaStatus::Reserved112, 113u8 => AntennaStatus::Reserved113, 114u8 => AntennaStatus::Reserved114, 115u8 => AntennaStatus::Reserved115, 116u8 => AntennaStatus::Reserved116, 117u8 => AntennaStatus::Reserved117, 118u8 => AntennaStatus::Reserved118, 119u8 => AntennaStatus::Reserved119, 120u8 => AntennaStatus::Reserved120, 121u8 => AntennaStatus::Reserved121, 122u8 => AntennaStatus::Reserved122, 123u8 => AntennaStatus::Reserved123, 124u8 => AntennaStatus::Reserved124, 125u8 => AntennaStatus::Reserved125, 126u8 => AntennaStatus::Reserved126, 127u8 => AntennaStatus::Reserved127, 128u8 => AntennaStatus::Reserved128, 129u8 => AntennaStatus::Reserved129, 130u8 => AntennaStatus::Reserved130, 131u8 => AntennaStatus::Reserved131, 132u8 => AntennaStatus::Reserved132, 133u8 => AntennaStatus::Reserved133, 134u8 => AntennaStatus::Reserved134, 135u8 => AntennaStatus::Reserved135, 136u8 => AntennaStatus::Reserved136, 137u8 => AntennaStatus::Reserved137, 138u8 => AntennaStatus::Reserved138, 139u8 => AntennaStatus::Reserved139, 140u8 => AntennaStatus::Reserved140, 141u8 => AntennaStatus::Reserved141, 142u8 => AntennaStatus::Reserved142, 143u8 => AntennaStatus::Reserved143, 144u8 => AntennaStatus::Reserved144, 145u8 => AntennaStatus::Reserved145, 146u8 => AntennaStatus::Reserved146, 147u8 => AntennaStatus::Reserved147, 148u8 => AntennaStatus::Reserved148, 149u8 => AntennaStatus::Reserved149, 150u8 => AntennaStatus::Reserved150, 151u8 => AntennaStatus::Reserved151, 152u8 => AntennaStatus::Reserved152, 153u8 => AntennaStatus::Reserved153, 154u8 => AntennaStatus::Reserved154, 155u8 => AntennaStatus::Reserved155, 156u8 => AntennaStatus::Reserved156, 157u8 => AntennaStatus::Reserved157, 158u8 => AntennaStatus::Reserved158, 159u8 => AntennaStatus::Reserved159, 160u8 => AntennaStatus::Reserved160, 161u8 => AntennaStatus::Reserved161, 162u8 => AntennaStatus::Reserved162, 163u8 => AntennaStatus::Reserved163, 164u8 => AntennaStatus::Reserved164, 165u8 => AntennaStatus::Reserved165, 166u8 => AntennaStatus::Reserved166, 167u8 => AntennaStatus::Reserved167, 168u8 => AntennaStatus::Reserved168, 169u8 => AntennaStatus::Reserved169, 170u8 => AntennaStatus::Reserved170, 171u8 => AntennaStatus::Reserved171, 172u8 => AntennaStatus::Reserved172, 173u8 => AntennaStatus::Reserved173, 174u8 => AntennaStatus::Reserved174, 175u8 => AntennaStatus::Reserved175, 176u8 => AntennaStatus::Reserved176, 177u8 => AntennaStatus::Reserved177, 178u8 => AntennaStatus::Reserved178, 179u8 => AntennaStatus::Reserved179, 180u8 => AntennaStatus::Reserved180, 181u8 => AntennaStatus::Reserved181, 182u8 => AntennaStatus::Reserved182, 183u8 => AntennaStatus::Reserved183, 184u8 => AntennaStatus::Reserved184, 185u8 => AntennaStatus::Reserved185, 186u8 => AntennaStatus::Reserved186, 187u8 => AntennaStatus::Reserved187, 188u8 => AntennaStatus::Reserved188, 189u8 => AntennaStatus::Reserved189, 190u8 => AntennaStatus::Reserved190, 191u8 => AntennaStatus::Reserved191, 192u8 => AntennaStatus::Reserved192, 193u8 => AntennaStatus::Reserved193, 194u8 => AntennaStatus::Reserved194, 195u8 => AntennaStatus::Reserved195, 196u8 => AntennaStatus::Reserved196, 197u8 => AntennaStatus::Reserved197, 198u8 => AntennaStatus::Reserved198, 199u8 => AntennaStatus::Reserved199, 200u8 => AntennaStatus::Reserved200, 201u8 => AntennaStatus::Reserved201, 202u8 => AntennaStatus::Reserved202, 203u8 => AntennaStatus::Reserved203, 204u8 => AntennaStatus::Reserved204, 205u8 => AntennaStatus::Reserved205, 206u8 => AntennaStatus::Reserved206, 207u8 => AntennaStatus::Reserved207, 208u8 => AntennaStatus::Reserved208, 209u8 => AntennaStatus::Reserved209, 210u8 => AntennaStatus::Reserved210, 211u8 => AntennaStatus::Reserved211, 212u8 => AntennaStatus::Reserved212, 213u8 => AntennaStatus::Reserved213, 214u8 => AntennaStatus::Reserved214, 215u8 => AntennaStatus::Reserved215, 216u8 => AntennaStatus::Reserved216, 217u8 => AntennaStatus::Reserved217, 218u8 => AntennaStatus::Reserved218, 219u8 => AntennaStatus::Reserved219, 220u8 => AntennaStatus::Reserved220, 221u8 => AntennaStatus::Reserved221, 222u8 => AntennaStatus::Reserved222, 223u8 => AntennaStatus::Reserved223, 224u8 => AntennaStatus::Reserved224, 225u8 => AntennaStatus::Reserved225, 226u8 => AntennaStatus::Reserved226, 227u8 => AntennaStatus::Reserved227, 228u8 => AntennaStatus::Reserved228, 229u8 => AntennaStatus::Reserved229, 230u8 => AntennaStatus::Reserved230, 231u8 => AntennaStatus::Reserved231, 232u8 => AntennaStatus::Reserved232, 233u8 => AntennaStatus::Reserved233, 234u8 => AntennaStatus::Reserved234, 235u8 => AntennaStatus::Reserved235, 236u8 => AntennaStatus::Reserved236, 237u8 => AntennaStatus::Reserved237, 238u8 => AntennaStatus::Reserved238, 239u8 => AntennaStatus::Reserved239, 240u8 => AntennaStatus::Reserved240, 241u8 => AntennaStatus::Reserved241, 242u8 => AntennaStatus::Reserved242, 243u8 => AntennaStatus::Reserved243, 244u8 => AntennaStatus::Reserved244, 245u8 => AntennaStatus::Reserved245, 246u8 => AntennaStatus::Reserved246, 247u8 => AntennaStatus::Reserved247, 248u8 => AntennaStatus::Reserved248, 249u8 => AntennaStatus::Reserved249, 250u8 => AntennaStatus::Reserved250, 251u8 => AntennaStatus::Reserved251, 252u8 => AntennaStatus::Reserved252, 253u8 => AntennaStatus::Reserved253, 254u8 => AntennaStatus::Reserved254, _ => AntennaStatus::Reserved255 }
}
/// no undocumented code decodes to a documented variant
pub proof fn theorem_AntennaStatus_exact(x: u8)
    ensures AntennaStatus_of(x) is Init <==> x == 0, AntennaStatus_of(x) is DontKnow <==> x == 1, AntennaStatus_of(x) is Ok <==> x == 2, AntennaStatus_of(x) is Short <==> x == 3, AntennaStatus_of(x) is Open <==> x == 4,
{}
/// documented codes of AntennaPower, all others reserved
pub open spec fn AntennaPower_of(x: u8) -> AntennaPower {
    match x { 0u8 => AntennaPower::Off, 1u8 => AntennaPower::On, 2u8 => AntennaPower::DontKnow, 3u8 => AntennaPower::Reserved3, 4u8 => AntennaPower::Reserved4, 5u8 => AntennaPower::Reserved5, 6u8 => AntennaPower::Reserved6, 7u8 => AntennaPower::Reserved7, 8u8 => AntennaPower::Reserved8, 9u8 => AntennaPower::Reserved9, 10u8 => AntennaPower::Reserved10, 11u8 => AntennaPower::Reserved11, 12u8 => AntennaPower::Reserved12, 13u8 => AntennaPower::Reserved13, 14u8 => AntennaPower::Reserved14, 15u8 => AntennaPower::Reserved15, 16u8 => AntennaPower::Reserved16, 17u8 => AntennaPower::Reserved17, 18u8 => AntennaPower::Reserved18, 19u8 => AntennaPower::Reserved19, 20u8 => AntennaPower::Reserved20, 21u8 => AntennaPower::Reserved21, 22u8 => AntennaPower::Reserved22, 23u8 => AntennaPower::Reserved23, 24u8 => AntennaPower::Reserved24, 25u8 => AntennaPower::Reserved25, 26u8 => AntennaPower::Reserved26, 27u8 => AntennaPower::Reserved27, 28u8 => AntennaPower::Reserved28, 29u8 => AntennaPower::Reserved29, 30u8 => AntennaPower::Reserved30, 31u8 => AntennaPower::Reserved31, 32u8 => AntennaPower::Reserved32, 33u8 => AntennaPower::Reserved33, 34u8 => AntennaPower::Reserved34, 35u8 => AntennaPower::Reserved35, 36u8 => AntennaPower::Reserved36, 37u8 => AntennaPower::Reserved37, 38u8 => AntennaPower::Reserved38, 39u8 => AntennaPower::Reserved39, 40u8 => AntennaPower::Reserved40, 41u8 => AntennaPower::Reserved41, 42u8 => AntennaPower::Reserved42, 43u8 => AntennaPower::Reserved43, 44u8 => AntennaPower::Reserved44, 45u8 => AntennaPower::Reserved45, 46u8 => AntennaPower::Reserved46, 47u8 => AntennaPower::Reserved47, 48u8 => AntennaPower::Reserved48, 49u8 => AntennaPower::Reserved49, 50u8 => AntennaPower::Reserved50, 51u8 => AntennaPower::Reserved51, 52u8 => AntennaPower::Reserved52, 53u8 => AntennaPower::Reserved53, 54u8 => AntennaPower::Reserved54, 55u8 => AntennaPower::Reserved55, 56u8 => AntennaPower::Reserved56, 57u8 => AntennaPower::Reserved57, 58u8 => AntennaPower::Reserved58, 59u8 => AntennaPower::Reserved59, 60u8 => AntennaPower::Reserved60, 61u8 => AntennaPower::Reserved61, 62u8 => AntennaPower::Reserved62, 63u8 => AntennaPower::Reserved63, 64u8 => AntennaPower::Reserved64, 65u8 => AntennaPower::Reserved65, 66u8 => AntennaPower::Reserved66, 67u8 => AntennaPower::Reserved67, 68u8 => AntennaPower::Reserved68, 69u8 => AntennaPower::Reserved69, 70u8 => AntennaPower::Reserved70, 71u8 => AntennaPower::Reserved71, 72u8 => AntennaPower::Reserved72, 73u8 => AntennaPower::Reserved73, 74u8 => AntennaPower::Reserved74, 75u8 => AntennaPower::Reserved75, 76u8 => AntennaPower::Reserved76, 77u8 => AntennaPower::Reserved77, 78u8 => AntennaPower::Reserved78, 79u8 => AntennaPower::Reserved79, 80u8 => AntennaPower::Reserved80, 81u8 => AntennaPower::Reserved81, 82u8 => AntennaPower::Reserved82, 83u8 => AntennaPower::Reserved83, 84u8 => AntennaPower::Reserved84, 85u8 => AntennaPower::Reserved85, 86u8 => AntennaPower::Reserved86, 87u8 => AntennaPower::Reserved87, 88u8 => AntennaPower::Reserved88, 89u8 => AntennaPower::Reserved89, 90u8 => AntennaPower::Reserved90, 91u8 => AntennaPower::Reserved91, 92u8 => AntennaPower::Reserved92, 93u8 => AntennaPower::Reserved93, 94u8 => AntennaPower::Reserved94, 95u8 => AntennaPower::Reserved95, 96u8 => AntennaPower::Reserved96, 97u8 => AntennaPower::Reserved97, 98u8 => AntennaPower::Reserved98, 99u8 => AntennaPower::Reserved99, 100u8 => AntennaPower::Reserved100, 101u8 => AntennaPower::Reserved101, 102u8 => AntennaPower::Reserved102, 103u8 => AntennaPower::Reserved103, 104u8 => AntennaPower::Reserved104, 105u8 => AntennaPower::Reserved105, 106u8 => AntennaPower::Reserved106, 107u8 => AntennaPower::Reserved107, 108u8 => AntennaPower::Reserved108, 109u8 => AntennaPower::Reserved109, 110u8 => AntennaPower::Reserved110, 111u8 => AntennaPower::Reserved111, 112u8 => AntennaPower::Reserved112, 113u8 => AntennaPower::Reserved113, 114u8 => AntennaPower::Reserved114, 115u8 => AntennaPower::Reserved115, 116u8 => AntennaPower::Reserved116, 117u8 => AntennaPower::Reserved117, 118u8 => AntennaPower::Reserved118, 119u8 => AntennaPower::Reserved119, 120u8 => AntennaPower::Reserved120, 121u8 => AntennaPower::Reserved121, 122u8 => AntennaPower::Reserved122, 123u8 => AntennaPower::Reserved123, 124u8 => AntennaPower::Reserved124, 125u8 => AntennaPower::Reserved125, 126u8 => AntennaPower::Reserved126, 127u8 => AntennaPower::Reserved127, 128u8 => AntennaPower::Reserved128, 129u8 => AntennaPower::Reserved129, 130u8 => AntennaPower::Reserved130, 131u8 => AntennaPower::Reserved131, 132u8 => AntennaPower::Reserved132, 133u8 => AntennaPower::Reserved133, 134u8 => AntennaPower::Reserved134, 135u8 => AntennaPower::Reserved135, 136u8 => AntennaPower::Reserved136, 137u8 => AntennaPower::Reserved137, 138u8 => AntennaPower::Reserved138, 139u8 => AntennaPower::Reserved139, 140u8 => AntennaPower::Reserved140, 141u8 => AntennaPower::Reserved141, 142u8 => AntennaPower::Reserved142, 143u8 => AntennaPower::Reserved143, 144u8 => AntennaPower::Reserved144, 145u8 => AntennaPower::Reserved145, 146u8 => AntennaPower::Reserved146, 147u8 => AntennaPower::Reserved147, 148u8 => AntennaPower::Reserved148, 149u8 => AntennaPower::Reserved149, 150u8 => AntennaPower::Reserved150, 151u8 => AntennaPower::Reserved151, 152u8 => AntennaPower::Reserved152, 153u8 => AntennaPower::Reserved153, 154u8 => AntennaPower::Reserved154, 155u8 => AntennaPower::Reserved155, 156u8 => AntennaPower::Reserved156, 157u8 => AntennaPower::Reserved157, 158u8 => AntennaPower::Reserved158, 159u8 => AntennaPower::Reserved159, 160u8 => AntennaPower::Reserved160, 161u8 => AntennaPower::Reserved161, 162u8 => AntennaPower::Reserved162, 163u8 => AntennaPower::Reserved163, 164u8 => AntennaPower::Reserved164, 165u8 => AntennaPower::Reserved165, 166u8 => AntennaPower::Reserved166, 167u8 => AntennaPower::Reserved167, 168u8 => AntennaPower::Reserved168, 169u8 => AntennaPower::Reserved169, 170u8 => AntennaPower::Reserved170, 171u8 => AntennaPower::Reserved171, 172u8 => AntennaPower::Reserved172, 173u8 => AntennaPower::Reserved173, 174u8 => AntennaPower::Reserved174, 175u8 => AntennaPower::Reserved175, 176u8 => AntennaPower::Reserved176, 177u8 => AntennaPower::Reserved177, 178u8 => AntennaPower::Reserved178, 179u8 => AntennaPower::Reserved179, 180u8 => AntennaPower::Reserved180, 181u8 => AntennaPower::Reserved181, 182u8 => AntennaPower::Reserved182, 183u8 => AntennaPower::Reserved183, 184u8 => AntennaPower::Reserved184, 185u8 => AntennaPower::Reserved185, 186u8 => AntennaPower::Reserved186, 187u8 => AntennaPower::Reserved187, 188u8 => AntennaPower::Reserved188, 189u8 => AntennaPower::Reserved189, 190u8 => AntennaPower::Reserved190, 191u8 => AntennaPower::Reserved191, 192u8 => AntennaPower::Reserved192, 193u8 => AntennaPower::Reserved193, 194u8 => AntennaPower::Reserved194, 195u8 => AntennaPower::Reserved195, 196u8 => AntennaPower::Reserved196, 197u8 => AntennaPower::Reserved197, 198u8 => AntennaPower::Reserved198, 199u8 => AntennaPower::Reserved199, 200u8 => AntennaPower::Reserved200, 201u8 => AntennaPower::Reserved201, 202u8 => AntennaPower::Reserved202, 203u8 => AntennaPower::Reserved203, 204u8 => AntennaPower::Reserved204, 205u8 => AntennaPower::Reserved205, 206u8 => AntennaPower::Reserved206, 207u8 => AntennaPower::Reserved207, 208u8 => AntennaPower::Reserved208, 209u8 => AntennaPower::Reserved209, 210u8 => AntennaPower::Reserved210, 211u8 => AntennaPower::Reserved211, 212u8 => AntennaPower::Reserved212, 213u8 => AntennaPower::Reserved213, 214u8 => AntennaPower::Reserved214, 215u8 => AntennaPower::Reserved215, 216u8 => AntennaPower::Reserved216, 217u8 => AntennaPower::Reserved217, 218u8 => AntennaPower::Reserved218, 219u8 => AntennaPower::Reserved219, 220u8 => AntennaPower::Reserved220, 221u8 => AntennaPower::Reserved221, 222u8 => AntennaPower::Reserved222, 223u8 => AntennaPower::Reserved223, 224u8 => AntennaPower::Reserved224, 225u8 => AntennaPower::Reserved225, 226u8 => AntennaPower::Reserved226, 227u8 => AntennaPower::Reserved227, 228u8 => AntennaPower::Reserved228, 229u8 => AntennaPower::Reserved229, 230u8 => AntennaPower::Reserved230, 231u8 => AntennaPower::Reserved231, 232u8 => AntennaPower::Reserved232, 233u8 => AntennaPower::Reserved233, 234u8 => AntennaPower::Reserved234, 235u8 => AntennaPower::Reserved235, 236u8 => AntennaPower::Reserved236, 237u8 => AntennaPower::Reserved237, 238u8 => AntennaPower::Reserved238, 239u8 => AntennaPower::Reserved239, 240u8 => AntennaPower::Reserved240, 241u8 => AntennaPower::Reserved241, 242u8 => AntennaPower::Reserved242, 243u8 => AntennaPower::Reserved243, 244u8 => AntennaPower::Reserved244, 245u8 => AntennaPower::Reserved245, 246u8 => AntennaPower::Reserved246, 247u8 => AntennaPower::Reserved247, 248u8 => AntennaPower::Reserved248, 249u8 => AntennaPower::Reserved249, 250u8 => AntennaPower::Reserved250, 251u8 => AntennaPower::Reserved251, 252u8 => AntennaPower::Reserved252, 253u8 => AntennaPower::Reserved253, 254u8 => AntennaPower::Reserved254, _ => AntennaPower::Reserved255 }
}
/// no undocumented code decodes to a documented variant
pub proof fn theorem_AntennaPower_exact(x: u8)
    ensures AntennaPower_of(x) is Off <==> x == 0, AntennaPower_of(x) is On <==> x == 1, AntennaPower_of(x) is DontKnow <==> x == 2,
{}
%gsubst
::core::panicking::panic($m) ==> unreachable_panic()
;;
::core::panicking::panic_fmt($m) ==> unreachable_panic()
;;
const fn into_raw ==> fn into_raw
%source exp
%take enum GpsFix
%take impl GpsFix
%derive enum GpsFix :: #[derive(Clone, Copy)] #[repr(u8)]
%fn GpsFix::from | ret=r
        ensures r == GpsFix_of(x),
%take enum NavStatusFlags2
%take impl NavStatusFlags2
%derive enum NavStatusFlags2 :: #[derive(Clone, Copy)] #[repr(u8)]
%fn NavStatusFlags2::from | ret=r
        ensures r == NavStatusFlags2_of(x),
%take enum OdoProfile
%take impl OdoProfile
%derive enum OdoProfile :: #[derive(Clone, Copy)] #[repr(u8)]
%fn OdoProfile::from_unchecked | ret=r
        requires OdoProfile_valid(x),
        ensures r == OdoProfile_of(x),
%fn OdoProfile::is_valid | ret=r
        ensures r == OdoProfile_valid(x),
%fn OdoProfile::into_raw | ret=r
        ensures r == OdoProfile_code(self),
%take enum CfgItfmAntennaSettings
%take impl CfgItfmAntennaSettings
%derive enum CfgItfmAntennaSettings :: #[derive(Clone, Copy)] #[repr(u8)]
%fn CfgItfmAntennaSettings::from_unchecked | ret=r
        requires CfgItfmAntennaSettings_valid(x),
        ensures r == CfgItfmAntennaSettings_of(x),
%fn CfgItfmAntennaSettings::is_valid | ret=r
        ensures r == CfgItfmAntennaSettings_valid(x),
%fn CfgItfmAntennaSettings::into_raw | ret=r
        ensures r == CfgItfmAntennaSettings_code(self),
%take enum CfgTp5TimePulseMode
%take impl CfgTp5TimePulseMode
%derive enum CfgTp5TimePulseMode :: #[derive(Clone, Copy)] #[repr(u8)]
%fn CfgTp5TimePulseMode::from_unchecked | ret=r
        requires CfgTp5TimePulseMode_valid(x),
        ensures r == CfgTp5TimePulseMode_of(x),
%fn CfgTp5TimePulseMode::is_valid | ret=r
        ensures r == CfgTp5TimePulseMode_valid(x),
%fn CfgTp5TimePulseMode::into_raw | ret=r
        ensures r == CfgTp5TimePulseMode_code(self),
%take enum CfgTmode2TimeXferModes
%take impl CfgTmode2TimeXferModes
%derive enum CfgTmode2TimeXferModes :: #[derive(Clone, Copy)] #[repr(u8)]
%fn CfgTmode2TimeXferModes::from_unchecked | ret=r
        requires CfgTmode2TimeXferModes_valid(x),
        ensures r == CfgTmode2TimeXferModes_of(x),
%fn CfgTmode2TimeXferModes::is_valid | ret=r
        ensures r == CfgTmode2TimeXferModes_valid(x),
%fn CfgTmode2TimeXferModes::into_raw | ret=r
        ensures r == CfgTmode2TimeXferModes_code(self),
%take enum I2cPortId
%take impl I2cPortId
%derive enum I2cPortId :: #[derive(Clone, Copy)] #[repr(u8)]
%fn I2cPortId::from_unchecked | ret=r
        requires I2cPortId_valid(x),
        ensures r == I2cPortId_of(x),
%fn I2cPortId::is_valid | ret=r
        ensures r == I2cPortId_valid(x),
%fn I2cPortId::into_raw | ret=r
        ensures r == I2cPortId_code(self),
%take enum UartPortId
%take impl UartPortId
%derive enum UartPortId :: #[derive(Clone, Copy)] #[repr(u8)]
%fn UartPortId::from_unchecked | ret=r
        requires UartPortId_valid(x),
        ensures r == UartPortId_of(x),
%fn UartPortId::is_valid | ret=r
        ensures r == UartPortId_valid(x),
%fn UartPortId::into_raw | ret=r
        ensures r == UartPortId_code(self),
%take enum SpiPortId
%take impl SpiPortId
%derive enum SpiPortId :: #[derive(Clone, Copy)] #[repr(u8)]
%fn SpiPortId::from_unchecked | ret=r
        requires SpiPortId_valid(x),
        ensures r == SpiPortId_of(x),
%fn SpiPortId::is_valid | ret=r
        ensures r == SpiPortId_valid(x),
%fn SpiPortId::into_raw | ret=r
        ensures r == SpiPortId_code(self),
%take enum CfgNav5DynModel
%take impl CfgNav5DynModel
%derive enum CfgNav5DynModel :: #[derive(Clone, Copy)] #[repr(u8)]
%fn CfgNav5DynModel::from_unchecked | ret=r
        requires CfgNav5DynModel_valid(x),
        ensures r == CfgNav5DynModel_of(x),
%fn CfgNav5DynModel::is_valid | ret=r
        ensures r == CfgNav5DynModel_valid(x),
%fn CfgNav5DynModel::into_raw | ret=r
        ensures r == CfgNav5DynModel_code(self),
%take enum CfgNav5FixMode
%take impl CfgNav5FixMode
%derive enum CfgNav5FixMode :: #[derive(Clone, Copy)] #[repr(u8)]
%fn CfgNav5FixMode::from_unchecked | ret=r
        requires CfgNav5FixMode_valid(x),
        ensures r == CfgNav5FixMode_of(x),
%fn CfgNav5FixMode::is_valid | ret=r
        ensures r == CfgNav5FixMode_valid(x),
%fn CfgNav5FixMode::into_raw | ret=r
        ensures r == CfgNav5FixMode_code(self),
%take enum CfgNav5UtcStandard
%take impl CfgNav5UtcStandard
%derive enum CfgNav5UtcStandard :: #[derive(Clone, Copy)] #[repr(u8)]
%fn CfgNav5UtcStandard::from_unchecked | ret=r
        requires CfgNav5UtcStandard_valid(x),
        ensures r == CfgNav5UtcStandard_of(x),
%fn CfgNav5UtcStandard::is_valid | ret=r
        ensures r == CfgNav5UtcStandard_valid(x),
%fn CfgNav5UtcStandard::into_raw | ret=r
        ensures r == CfgNav5UtcStandard_code(self),
%take enum MsgAckInfoCode
%take impl MsgAckInfoCode
%derive enum MsgAckInfoCode :: #[derive(Clone, Copy)] #[repr(u8)]
%fn MsgAckInfoCode::from | ret=r
        ensures r == MsgAckInfoCode_of(x),
%take enum AntennaStatus
%take impl AntennaStatus
%derive enum AntennaStatus :: #[derive(Clone, Copy)] #[repr(u8)]
%fn AntennaStatus::from | ret=r
        ensures r == AntennaStatus_of(x),
%take enum AntennaPower
%take impl AntennaPower
%derive enum AntennaPower :: #[derive(Clone, Copy)] #[repr(u8)]
%fn AntennaPower::from | ret=r
        ensures r == AntennaPower_of(x),
