/* Writes gray frames to a video file, losslessly.
 * avgen OUT CODEC WIDTH HEIGHT BFRAMES AUDIO < frames (8 bits per sample)
 * AUDIO: 0 none, 1 an audio stream after the video stream, 2 before it
 */
#include <libavformat/avformat.h>
#include <libavcodec/avcodec.h>
#include <libavutil/opt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define DIE(...) do { fprintf(stderr,__VA_ARGS__); exit(1); } while(0)
static AVFormatContext* out;
static AVPacket* pkt;

static void drain(AVCodecContext* c, AVStream* st) {
	while(!avcodec_receive_packet(c,pkt)) {
		pkt->stream_index = st->index;
		if(!pkt->duration) pkt->duration = 1;
		av_packet_rescale_ts(pkt,c->time_base,st->time_base);
		if(av_interleaved_write_frame(out,pkt) < 0) DIE("write");
	}
}

static AVStream* add(AVCodecContext* c) {
	AVStream* st = avformat_new_stream(out,NULL);
	if(out->oformat->flags & AVFMT_GLOBALHEADER) c->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
	st->time_base = c->time_base;
	return st;
}

int main(int argc, char* argv[]) {
	if(argc < 7) DIE("arguments");
	int w = atoi(argv[3]), h = atoi(argv[4]), bf = atoi(argv[5]), audio = atoi(argv[6]);
	av_log_set_level(AV_LOG_ERROR);
	if(avformat_alloc_output_context2(&out,NULL,NULL,argv[1]) < 0) DIE("container");
	pkt = av_packet_alloc();
	const AVCodec* vc = avcodec_find_encoder_by_name(argv[2]);
	if(!vc) DIE("codec");
	AVCodecContext* v = avcodec_alloc_context3(vc),* a = NULL;
	v->width = w; v->height = h; v->pix_fmt = AV_PIX_FMT_GRAY8; v->time_base = (AVRational){1,25}; v->framerate = (AVRational){25,1};
	v->thread_count = 1;
	if(bf) v->max_b_frames = bf;
	v->gop_size = 12;
	AVDictionary* o = NULL;
	if(!strcmp(argv[2],"libx264")) {
		av_dict_set(&o,"qp",bf ? "1" : "0",0); /* it codes no B-frames without loss */
		av_dict_set(&o,"preset","medium",0);
		av_dict_set(&o,"x264-params","log-level=-1:b-adapt=0:scenecut=0:threads=1",0);
	}
	AVStream* vs = NULL,* as = NULL;
	if(audio == 2) goto addaudio;
addvideo:
	vs = add(v);
	if(avcodec_open2(v,vc,&o) < 0) DIE("open codec");
	avcodec_parameters_from_context(vs->codecpar,v);
	if(audio && !a) {
addaudio:;
		const AVCodec* ac = avcodec_find_encoder_by_name("pcm_s16le");
		a = avcodec_alloc_context3(ac);
		a->sample_rate = 8000; a->sample_fmt = AV_SAMPLE_FMT_S16; a->ch_layout = (AVChannelLayout)AV_CHANNEL_LAYOUT_MONO; a->time_base = (AVRational){1,8000};
		as = add(a);
		if(avcodec_open2(a,ac,NULL) < 0) DIE("open audio codec");
		avcodec_parameters_from_context(as->codecpar,a);
		if(!vs) goto addvideo;
	}
	out->flags |= AVFMT_FLAG_BITEXACT;
	if(avio_open(&out->pb,argv[1],AVIO_FLAG_WRITE) < 0 || avformat_write_header(out,NULL) < 0) DIE("header");
	unsigned char* row = malloc(w);
	AVFrame* f = av_frame_alloc(),* s = av_frame_alloc();
	f->width = w; f->height = h; f->format = v->pix_fmt;
	if(av_frame_get_buffer(f,0) < 0) DIE("frame");
	for(int n = 0; ; n++) {
		if(av_frame_make_writable(f) < 0) DIE("frame");
		int y;
		for(y = 0; y < h && fread(row,1,w,stdin) == w; y++) memcpy(f->data[0]+y*f->linesize[0],row,w);
		if(y < h) break;
		f->pts = n;
		if(avcodec_send_frame(v,f) < 0) DIE("encode");
		drain(v,vs);
		if(a) {
			s->nb_samples = 320; s->format = a->sample_fmt; s->sample_rate = 8000; av_channel_layout_copy(&s->ch_layout,&a->ch_layout);
			if(av_frame_get_buffer(s,0) < 0) DIE("audio frame");
			for(int i = 0; i < 320; i++) ((short*)s->data[0])[i] = n*31+i*77;
			s->pts = n*320;
			if(avcodec_send_frame(a,s) < 0) DIE("encode audio");
			drain(a,as);
			av_frame_unref(s);
		}
	}
	avcodec_send_frame(v,NULL);
	drain(v,vs);
	if(a) { avcodec_send_frame(a,NULL); drain(a,as); }
	if(av_write_trailer(out) < 0) DIE("trailer");
	avio_closep(&out->pb);
	return 0;
}
