-------------------------------- MODULE Names --------------------------------
(* The colour names of SVG 1.0 / CSS 3 and their values 0xRRGGBB; a name is    *)
(* the list of its characters' code points (lower case).                       *)
EXTENDS Integers, Sequences
Names == <<
  << <<97,108,105,99,101,98,108,117,101>>, 15792383>>,
  << <<97,110,116,105,113,117,101,119,104,105,116,101>>, 16444375>>,
  << <<97,113,117,97>>, 65535>>,
  << <<97,113,117,97,109,97,114,105,110,101>>, 8388564>>,
  << <<97,122,117,114,101>>, 15794175>>,
  << <<98,101,105,103,101>>, 16119260>>,
  << <<98,105,115,113,117,101>>, 16770244>>,
  << <<98,108,97,99,107>>, 0>>,
  << <<98,108,97,110,99,104,101,100,97,108,109,111,110,100>>, 16772045>>,
  << <<98,108,117,101>>, 255>>,
  << <<98,108,117,101,118,105,111,108,101,116>>, 9055202>>,
  << <<98,114,111,119,110>>, 10824234>>,
  << <<98,117,114,108,121,119,111,111,100>>, 14596231>>,
  << <<99,97,100,101,116,98,108,117,101>>, 6266528>>,
  << <<99,104,97,114,116,114,101,117,115,101>>, 8388352>>,
  << <<99,104,111,99,111,108,97,116,101>>, 13789470>>,
  << <<99,111,114,97,108>>, 16744272>>,
  << <<99,111,114,110,102,108,111,119,101,114,98,108,117,101>>, 6591981>>,
  << <<99,111,114,110,115,105,108,107>>, 16775388>>,
  << <<99,114,105,109,115,111,110>>, 14423100>>,
  << <<99,121,97,110>>, 65535>>,
  << <<100,97,114,107,98,108,117,101>>, 139>>,
  << <<100,97,114,107,99,121,97,110>>, 35723>>,
  << <<100,97,114,107,103,111,108,100,101,110,114,111,100>>, 12092939>>,
  << <<100,97,114,107,103,114,97,121>>, 11119017>>,
  << <<100,97,114,107,103,114,101,101,110>>, 25600>>,
  << <<100,97,114,107,103,114,101,121>>, 11119017>>,
  << <<100,97,114,107,107,104,97,107,105>>, 12433259>>,
  << <<100,97,114,107,109,97,103,101,110,116,97>>, 9109643>>,
  << <<100,97,114,107,111,108,105,118,101,103,114,101,101,110>>, 5597999>>,
  << <<100,97,114,107,111,114,97,110,103,101>>, 16747520>>,
  << <<100,97,114,107,111,114,99,104,105,100>>, 10040012>>,
  << <<100,97,114,107,114,101,100>>, 9109504>>,
  << <<100,97,114,107,115,97,108,109,111,110>>, 15308410>>,
  << <<100,97,114,107,115,101,97,103,114,101,101,110>>, 9419919>>,
  << <<100,97,114,107,115,108,97,116,101,98,108,117,101>>, 4734347>>,
  << <<100,97,114,107,115,108,97,116,101,103,114,97,121>>, 3100495>>,
  << <<100,97,114,107,115,108,97,116,101,103,114,101,121>>, 3100495>>,
  << <<100,97,114,107,116,117,114,113,117,111,105,115,101>>, 52945>>,
  << <<100,97,114,107,118,105,111,108,101,116>>, 9699539>>,
  << <<100,101,101,112,112,105,110,107>>, 16716947>>,
  << <<100,101,101,112,115,107,121,98,108,117,101>>, 49151>>,
  << <<100,105,109,103,114,97,121>>, 6908265>>,
  << <<100,105,109,103,114,101,121>>, 6908265>>,
  << <<100,111,100,103,101,114,98,108,117,101>>, 2003199>>,
  << <<102,105,114,101,98,114,105,99,107>>, 11674146>>,
  << <<102,108,111,114,97,108,119,104,105,116,101>>, 16775920>>,
  << <<102,111,114,101,115,116,103,114,101,101,110>>, 2263842>>,
  << <<102,117,99,104,115,105,97>>, 16711935>>,
  << <<103,97,105,110,115,98,111,114,111>>, 14474460>>,
  << <<103,104,111,115,116,119,104,105,116,101>>, 16316671>>,
  << <<103,111,108,100>>, 16766720>>,
  << <<103,111,108,100,101,110,114,111,100>>, 14329120>>,
  << <<103,114,97,121>>, 8421504>>,
  << <<103,114,101,101,110>>, 32768>>,
  << <<103,114,101,101,110,121,101,108,108,111,119>>, 11403055>>,
  << <<103,114,101,121>>, 8421504>>,
  << <<104,111,110,101,121,100,101,119>>, 15794160>>,
  << <<104,111,116,112,105,110,107>>, 16738740>>,
  << <<105,110,100,105,97,110,114,101,100>>, 13458524>>,
  << <<105,110,100,105,103,111>>, 4915330>>,
  << <<105,118,111,114,121>>, 16777200>>,
  << <<107,104,97,107,105>>, 15787660>>,
  << <<108,97,118,101,110,100,101,114>>, 15132410>>,
  << <<108,97,118,101,110,100,101,114,98,108,117,115,104>>, 16773365>>,
  << <<108,97,119,110,103,114,101,101,110>>, 8190976>>,
  << <<108,101,109,111,110,99,104,105,102,102,111,110>>, 16775885>>,
  << <<108,105,103,104,116,98,108,117,101>>, 11393254>>,
  << <<108,105,103,104,116,99,111,114,97,108>>, 15761536>>,
  << <<108,105,103,104,116,99,121,97,110>>, 14745599>>,
  << <<108,105,103,104,116,103,111,108,100,101,110,114,111,100,121,101,108,108,111,119>>, 16448210>>,
  << <<108,105,103,104,116,103,114,97,121>>, 13882323>>,
  << <<108,105,103,104,116,103,114,101,101,110>>, 9498256>>,
  << <<108,105,103,104,116,103,114,101,121>>, 13882323>>,
  << <<108,105,103,104,116,112,105,110,107>>, 16758465>>,
  << <<108,105,103,104,116,115,97,108,109,111,110>>, 16752762>>,
  << <<108,105,103,104,116,115,101,97,103,114,101,101,110>>, 2142890>>,
  << <<108,105,103,104,116,115,107,121,98,108,117,101>>, 8900346>>,
  << <<108,105,103,104,116,115,108,97,116,101,103,114,97,121>>, 7833753>>,
  << <<108,105,103,104,116,115,108,97,116,101,103,114,101,121>>, 7833753>>,
  << <<108,105,103,104,116,115,116,101,101,108,98,108,117,101>>, 11584734>>,
  << <<108,105,103,104,116,121,101,108,108,111,119>>, 16777184>>,
  << <<108,105,109,101>>, 65280>>,
  << <<108,105,109,101,103,114,101,101,110>>, 3329330>>,
  << <<108,105,110,101,110>>, 16445670>>,
  << <<109,97,103,101,110,116,97>>, 16711935>>,
  << <<109,97,114,111,111,110>>, 8388608>>,
  << <<109,101,100,105,117,109,97,113,117,97,109,97,114,105,110,101>>, 6737322>>,
  << <<109,101,100,105,117,109,98,108,117,101>>, 205>>,
  << <<109,101,100,105,117,109,111,114,99,104,105,100>>, 12211667>>,
  << <<109,101,100,105,117,109,112,117,114,112,108,101>>, 9662683>>,
  << <<109,101,100,105,117,109,115,101,97,103,114,101,101,110>>, 3978097>>,
  << <<109,101,100,105,117,109,115,108,97,116,101,98,108,117,101>>, 8087790>>,
  << <<109,101,100,105,117,109,115,112,114,105,110,103,103,114,101,101,110>>, 64154>>,
  << <<109,101,100,105,117,109,116,117,114,113,117,111,105,115,101>>, 4772300>>,
  << <<109,101,100,105,117,109,118,105,111,108,101,116,114,101,100>>, 13047173>>,
  << <<109,105,100,110,105,103,104,116,98,108,117,101>>, 1644912>>,
  << <<109,105,110,116,99,114,101,97,109>>, 16121850>>,
  << <<109,105,115,116,121,114,111,115,101>>, 16770273>>,
  << <<109,111,99,99,97,115,105,110>>, 16770229>>,
  << <<110,97,118,97,106,111,119,104,105,116,101>>, 16768685>>,
  << <<110,97,118,121>>, 128>>,
  << <<111,108,100,108,97,99,101>>, 16643558>>,
  << <<111,108,105,118,101>>, 8421376>>,
  << <<111,108,105,118,101,100,114,97,98>>, 7048739>>,
  << <<111,114,97,110,103,101>>, 16753920>>,
  << <<111,114,97,110,103,101,114,101,100>>, 16729344>>,
  << <<111,114,99,104,105,100>>, 14315734>>,
  << <<112,97,108,101,103,111,108,100,101,110,114,111,100>>, 15657130>>,
  << <<112,97,108,101,103,114,101,101,110>>, 10025880>>,
  << <<112,97,108,101,116,117,114,113,117,111,105,115,101>>, 11529966>>,
  << <<112,97,108,101,118,105,111,108,101,116,114,101,100>>, 14381203>>,
  << <<112,97,112,97,121,97,119,104,105,112>>, 16773077>>,
  << <<112,101,97,99,104,112,117,102,102>>, 16767673>>,
  << <<112,101,114,117>>, 13468991>>,
  << <<112,105,110,107>>, 16761035>>,
  << <<112,108,117,109>>, 14524637>>,
  << <<112,111,119,100,101,114,98,108,117,101>>, 11591910>>,
  << <<112,117,114,112,108,101>>, 8388736>>,
  << <<114,101,100>>, 16711680>>,
  << <<114,111,115,121,98,114,111,119,110>>, 12357519>>,
  << <<114,111,121,97,108,98,108,117,101>>, 4286945>>,
  << <<115,97,100,100,108,101,98,114,111,119,110>>, 9127187>>,
  << <<115,97,108,109,111,110>>, 16416882>>,
  << <<115,97,110,100,121,98,114,111,119,110>>, 16032864>>,
  << <<115,101,97,103,114,101,101,110>>, 3050327>>,
  << <<115,101,97,115,104,101,108,108>>, 16774638>>,
  << <<115,105,101,110,110,97>>, 10506797>>,
  << <<115,105,108,118,101,114>>, 12632256>>,
  << <<115,107,121,98,108,117,101>>, 8900331>>,
  << <<115,108,97,116,101,98,108,117,101>>, 6970061>>,
  << <<115,108,97,116,101,103,114,97,121>>, 7372944>>,
  << <<115,108,97,116,101,103,114,101,121>>, 7372944>>,
  << <<115,110,111,119>>, 16775930>>,
  << <<115,112,114,105,110,103,103,114,101,101,110>>, 65407>>,
  << <<115,116,101,101,108,98,108,117,101>>, 4620980>>,
  << <<116,97,110>>, 13808780>>,
  << <<116,101,97,108>>, 32896>>,
  << <<116,104,105,115,116,108,101>>, 14204888>>,
  << <<116,111,109,97,116,111>>, 16737095>>,
  << <<116,117,114,113,117,111,105,115,101>>, 4251856>>,
  << <<118,105,111,108,101,116>>, 15631086>>,
  << <<119,104,101,97,116>>, 16113331>>,
  << <<119,104,105,116,101>>, 16777215>>,
  << <<119,104,105,116,101,115,109,111,107,101>>, 16119285>>,
  << <<121,101,108,108,111,119>>, 16776960>>,
  << <<121,101,108,108,111,119,103,114,101,101,110>>, 10145074>>
>>
=============================================================================
