import subprocess
M={'72d7518':'P02','2aaeb78':'P02','f672f7f':'P02','82cb122':'P01','ef3477c':'P02','3708400':'P01','1a1b3db':'P01','39123b6':'P07','ae86f63':'P03','a9dd2ab':'P05','34b2db6':'P11','c543d44':'P11','f022f88':'P11','fae8521':'P11','c467415':'P12','35b44d7':'P07','8cd2599':'P11','b9fd535':'P11','55b2ba2':'P11','e2e217e':'P14','597d8d0':'P11','030a689':'P10'}
