@module errors
