// Lemma functions for the daemon: a request is handled, its job fetched by the worker of the
// sequential queue and executed. Overlaid at src/ferryd/zz_verif_lemmas.go, for verification only.

package main

import (
	"net/http"

	"github.com/julienschmidt/httprouter"
)

func (s *Server) verifCreateRepo(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.CreateRepo(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifDeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.DeleteRepo(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifDeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.DeltaRepo(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifIndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.IndexRepo(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifImportPackages(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.ImportPackages(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifCloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.CloneRepo(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifPullRepo(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.PullRepo(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifRemoveSource(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.RemoveSource(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifCopySource(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.CopySource(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifTrimPackages(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.TrimPackages(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifTrimObsolete(w http.ResponseWriter, r *http.Request, p httprouter.Params) error {
	s.TrimObsolete(w, r, p)
	return s.jproc.VerifRunSequential()
}

func (s *Server) verifTransit(name string) error {
	s.processTransitManifest(name)
	return s.jproc.VerifRunSequential()
}
