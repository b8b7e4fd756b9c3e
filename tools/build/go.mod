module verifbuild

go 1.21
