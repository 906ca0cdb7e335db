package shttp

import (
	"net"
	"net/http"
	"verif/simrt"
)

type Server = simrt.Server

func Serve(l net.Listener, h http.Handler) error                 { return simrt.Serve(l, h) }
func ListenAndServe(a string, h http.Handler) error              { return simrt.ListenAndServe(a, h) }
func ServeFile(w http.ResponseWriter, r *http.Request, n string) { simrt.ServeFile(w, r, n) }

type Dir = simrt.Dir
