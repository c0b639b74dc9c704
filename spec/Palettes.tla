------------------------------ MODULE Palettes ------------------------------
(* The fixed thread palettes as the formats define them: colour numbers      *)
(* 0xRRGGBB, entry k of the format at position k + 1; -1 marks no thread.    *)
EXTENDS Integers, Sequences
PecPalette == <<-1, 925564, 677283, 34679, 4942767, 15537951, 13720576, 9516695, 14981835, 9527212, 10409597,
  15247616, 16693813, 16776960, 7388191, 12228608, 11053224, 8220416, 16777139, 5199190, 0, 736657, 7799158,
  2699571, 2757377, 16140938, 11695652, 16563141, 16660239, 15790320, 6954122, 11066820, 2458811, 16692035,
  16773995, 13674080, 13718528, 6732361, 1264198, 8882055, 14208198, 4412935, 16636382, 16356284, 14370,
  11710420, 6843056, 15721401, 16201830, 11881316, 1256218, 13042006, 16686642, 11067115, 26430, 5122448,
  3112480, 16764108, 16767249, 613286, 15792496, 14938971, 16750848, 16773261, 16763080>>
JefPalette == <<-1, 0, 16777215, 16776983, 16737792, 3103027, 2323254, 6669000, 11229846, 16148896, 16711680,
  11628622, 733060, 14992221, 4725253, 11312327, 16577172, 16357815, 16429953, 13214848, 9897267, 10533068,
  8372764, 15066597, 8952731, 10016445, 11723235, 3574688, 5211051, 3697297, 464464, 16357794, 16344939,
  14889247, 14852488, 11900020, 14995353, 16763648, 14790100, 12779646, 8388683, 5506417, 11601189, 13295808,
  9017430, 6067226, 12564, 6139540, 5029775, 30578, 5856097, 16777202, 11622424, 13339143, 9989248, 9988397,
  5059609, 4993803, 3350538, 5388951, 860542, 1996716, 11722067, 15939209, 14574750, 9978209, 5002770, 5015583,
  14999161, 13339162, 13345308, 16750597, 16560727, 16770309, 15741727, 1737773, 3697838, 14927028, 14920833>>
SewPalette == <<0, 0, 16777215, 16776983, 16425056, 6059593, 4243504, 6669000, 11305150, 16104651, 16711680,
  12615680, 240, 14992221, 10824234, 14004436, 16577172, 15782080, 16760832, 13214848, 10173771, 10533068,
  8372764, 12171705, 10526880, 10016445, 12120304, 3574688, 5211051, 3697297, 8299, 15058378, 16344939,
  14889247, 14852488, 11900020, 14995353, 14797568, 14790100, 12779646, 8388683, 10510512, 12599328, 13295808,
  9017430, 43520, 2198049, 6139540, 5029775, 30578, 7368816, 15925247, 11622424, 13339143, 16224891, 9988397,
  10645832, 8082762, 5192006, 5388951, 160, 38622, 11722067, 16420795, 14574750, 11882598, 6182727, 5015583,
  14998649, 13339162, 13019714, 15511596, 16285760, 16770309, 16415354, 7069696, 3697838, 13679280, 14925441>>
HusPalette == <<0, 231, 50688, 16711680, 8650884, 16776960, 8684676, 8684775, 65412, 16743217, 16747685,
  8671744, 16777215, 132, 33792, 8060928, 16737156, 5384530, 16711935, 16768512, 16777116, 5395026, 14079702,
  16732680, 16751706, 16732853, 16762590, 5386496, 11904388>>
ShvPalette == <<0, 255, 3394662, 16711680, 16711935, 16776960, 8355711, 3382015, 65280, 16744192, 16752820,
  10046208, 16777215, 0, 0, 0, 0, 0, 0, 16744319, 16744447, 16777113, 12632256, 0, 0, 16753985, 16764108,
  11491850, 0, 0, 0, 0, 0, 127, 32512, 8323072, 8323199, 13158400, 3947580, 0, 0, 15220480, 16737914>>
PcmPalette == <<0, 128, 255, 32896, 65535, 8388736, 16711935, 8388608, 16711680, 32768, 65280, 8421376,
  16776960, 8421504, 12632256, 16777215>>
Palette(n) == CASE n = "pec" -> PecPalette [] n = "jef" -> JefPalette [] n = "sew" -> SewPalette
                [] n = "hus" -> HusPalette [] n = "shv" -> ShvPalette [] n = "pcm" -> PcmPalette
=============================================================================
