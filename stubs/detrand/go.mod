module verif/detrand

go 1.19
