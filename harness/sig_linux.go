package main

import "syscall"

var sigQuit = syscall.SIGQUIT
