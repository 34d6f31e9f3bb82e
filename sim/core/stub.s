// empty: lets run.go declare a function whose body the runtime provides
