------------------------------ MODULE Commands ------------------------------
(* Names of the commands (lists of code points) and their numbers.            *)
CommandNames == <<
  << <<83,84,73,84,67,72>>, 0>>,
  << <<74,85,77,80>>, 1>>,
  << <<84,82,73,77>>, 2>>,
  << <<83,84,79,80>>, 3>>,
  << <<69,78,68>>, 4>>,
  << <<67,79,76,79,82,95,67,72,65,78,71,69>>, 5>>,
  << <<83,69,81,85,73,78,95,77,79,68,69>>, 6>>,
  << <<83,69,81,85,73,78,95,69,74,69,67,84>>, 7>>,
  << <<78,69,69,68,76,69,95,83,69,84>>, 9>>,
  << <<83,76,79,87>>, 11>>,
  << <<70,65,83,84>>, 12>>,
  << <<83,69,84,95,67,72,65,78,71,69,95,83,69,81,85,69,78,67,69>>, 16>>,
  << <<83,69,87,95,84,79>>, 176>>,
  << <<78,69,69,68,76,69,95,65,84>>, 177>>,
  << <<83,84,73,84,67,72,95,66,82,69,65,75>>, 224>>,
  << <<83,69,81,85,69,78,67,69,95,66,82,69,65,75>>, 225>>,
  << <<67,79,76,79,82,95,66,82,69,65,75>>, 226>>,
  << <<84,73,69,95,79,78>>, 228>>,
  << <<84,73,69,95,79,70,70>>, 229>>,
  << <<70,82,65,77,69,95,69,74,69,67,84>>, 233>>,
  << <<77,65,84,82,73,88,95,84,82,65,78,83,76,65,84,69>>, 192>>,
  << <<77,65,84,82,73,88,95,83,67,65,76,69,95,79,82,73,71,73,78>>, 193>>,
  << <<77,65,84,82,73,88,95,82,79,84,65,84,69,95,79,82,73,71,73,78>>, 194>>,
  << <<77,65,84,82,73,88,95,82,69,83,69,84>>, 195>>,
  << <<77,65,84,82,73,88,95,83,67,65,76,69>>, 196>>,
  << <<77,65,84,82,73,88,95,82,79,84,65,84,69>>, 197>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,84,73,69,95,79,78,95,84,72,82,69,69,95,83,77,65,76,76>>, 209>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,84,73,69,95,79,70,70,95,84,72,82,69,69,95,83,77,65,76,76>>, 210>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,84,73,69,95,79,78,95,78,79,78,69>>, 211>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,84,73,69,95,79,70,70,95,78,79,78,69>>, 212>>,
  << <<79,80,84,73,79,78,95,77,65,88,95,83,84,73,84,67,72,95,76,69,78,71,84,72>>, 213>>,
  << <<79,80,84,73,79,78,95,77,65,88,95,74,85,77,80,95,76,69,78,71,84,72>>, 214>>,
  << <<79,80,84,73,79,78,95,69,88,80,76,73,67,73,84,95,84,82,73,77>>, 215>>,
  << <<79,80,84,73,79,78,95,73,77,80,76,73,67,73,84,95,84,82,73,77>>, 216>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,76,79,78,71,95,83,84,73,84,67,72,95,78,79,78,69>>, 240>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,76,79,78,71,95,83,84,73,84,67,72,95,74,85,77,80,95,78,69,69,68,76,69>>, 241>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,76,79,78,71,95,83,84,73,84,67,72,95,83,69,87,95,84,79>>, 242>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,83,69,81,85,73,78,95,85,84,73,76,73,90,69>>, 245>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,83,69,81,85,73,78,95,74,85,77,80>>, 246>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,83,69,81,85,73,78,95,83,84,73,84,67,72>>, 247>>,
  << <<67,79,78,84,73,78,71,69,78,67,89,95,83,69,81,85,73,78,95,82,69,77,79,86,69>>, 248>>
>>
=============================================================================
