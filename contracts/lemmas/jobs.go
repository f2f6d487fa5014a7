// Lemma functions for package jobs: they compose the real functions, so that a
// contract can speak about the whole way of a request. Overlaid at
// src/ferryd/jobs/zz_verif_lemmas.go, for verification only.

package jobs

// VerifRunSequential does what the sequential worker does with its next job.
func (j *Processor) VerifRunSequential() error {
	w := NewWorkerSequential(j)
	job, err := w.fetcher()
	if err != nil {
		return err
	}
	w.processJob(job)
	return job.failure
}

// VerifRunAsync does what an asynchronous worker does with its next job.
func (j *Processor) VerifRunAsync() error {
	w := NewWorkerAsync(j)
	job, err := w.fetcher()
	if err != nil {
		return err
	}
	w.processJob(job)
	return job.failure
}

// VerifProcess processes a job that was fetched.
func (w *Worker) VerifProcess(job *JobEntry) error {
	w.processJob(job)
	return job.failure
}
