module verifh

go 1.22.4
