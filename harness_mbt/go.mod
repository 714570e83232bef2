module verifm

go 1.23.0
