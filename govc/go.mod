module govc

go 1.27
